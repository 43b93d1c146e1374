/* C15 with many ranks. */
#define RT_MAX 144
#define MAXN 140
#include "C15.c"
/* parameters: ranks, class of the others, class of the chosen ones, segment size:
 * no rank, all ranks, every 3rd, every 17th or any one rank (of more than 40 ranks some) has the second class;
 * and with a fifth parameter the rank with half its number as well */
void h_c15_many(void) {
  segsize(3);
  N = (int)sx_param(0);
  int which = (int)sx_concrete(sx_choose("ranks", 4 + (unsigned)(N > 40 ? 5 : N)));
  int one = N > 40 && which >= 4 ? which == 4 ? 0 : which == 5 ? N - 1 : which == 6 ? N / 2 : which == 7 ? 64 : N - 64 : which - 4;
  for (int r = 0; r < N; r++) {
    int odd = which == 0 ? 0 : which == 1 ? 1 : which == 2 ? r % 3 == 2 : which == 3 ? r % 17 == 16 : r == one || (sx_param(4) && r == one / 2);
    cls[r] = (int)sx_param(odd ? 2 : 1);
  }
  symrank = N - 1; symkey = sym_str(2, "key"); sx_assume(strcmp(symkey, "data") != 0);
  vm_mpi_run(N, writer);
  check_set(PRE, N);
  sx_check(seen_files == vm_file_count(), "a file that belongs to nothing is created");
  vm_mpi_run(N, reader);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_cover("done");
}
