/* Cooperative scheduler: processes (ranks) are engine threads; thread 0 is the harness. */
#define _GNU_SOURCE
#include "vm.h"
#include <string.h>
#include <stdlib.h>
#define MAXT 321
enum { T_FREE, T_READY, T_BLOCKED, T_DONE };
static struct { int st; volatile int *flag; void (*fn)(void *); void *arg; int tid; int exited; int code; int catch_exit; } T[MAXT] = {{T_READY, NULL, NULL, NULL, 0, 0, 0, 0}};
static int nT = 1;
int vm_preempt_budget, vm_crashed, vm_exit_allowed, vm_sched_choose;
static volatile int joined; static int cur_;
void vm_fs_process_end(int pid);

int vm_self(void) { return cur_; }
static int ready(int t) { return T[t].st == T_READY || (T[t].st == T_BLOCKED && *T[t].flag); }
static void go(int t) { cur_ = t; sx_thread_switch(T[t].tid); }
/* somebody else who can run; the harness thread only runs when nobody else can */
static int pick(int self, const char *what) {
  int c[MAXT], n = 0;
  for (int k = 1; k <= nT; k++) { int t = (self + k) % nT; if (t != self && t != 0 && ready(t)) c[n++] = t; }
  if (n == 0) { if (self != 0 && ready(0)) return 0; return -1; }
  if (n > 1 && vm_sched_choose) return c[(int)sx_concrete(sx_choose(what, n))];
  return c[0];
}
void vm_block_on(volatile int *flag) {
  while (!*flag) {
    int me = cur_;
    T[me].st = T_BLOCKED; T[me].flag = flag;
    int t = pick(me, "next process");
    if (t < 0) { if (*flag) { T[me].st = T_READY; break; } sx_fail("deadlock: every process waits"); }
    go(t);
    T[me].st = T_READY;
  }
}
void vm_yield_point(const char *what) {
  int me = cur_, c[MAXT], n = 0;
  if (vm_preempt_budget <= 0 || me == 0) return;
  for (int t = 1; t < nT; t++) if (t != me && ready(t)) c[n++] = t;
  if (!n) return;
  unsigned k = (unsigned)sx_concrete(sx_choose(what, n + 1));
  if (k == 0) return;
  vm_preempt_budget--;
  go(c[k - 1]);
}
void vm_force_yield(void) {
  int t = pick(cur_, "next process");
  if (t > 0) go(t);
}
static void finish(int me) {
  vm_fs_process_end(me);
  T[me].st = T_DONE;
  int live = 0;
  for (int t = 1; t < nT; t++) if (T[t].st == T_READY || T[t].st == T_BLOCKED) live++;
  if (!live) joined = 1;
  int t = pick(me, "next process");
  if (t < 0) { if (joined) t = 0; else sx_fail("deadlock: every remaining process waits"); }
  go(t);
  sx_fail("model: a finished process runs");
}
static void entry(void *a) {
  int me = (int)(long)a;
  T[me].fn(T[me].arg);
  finish(me);
}
void vm_spawn(void (*fn)(void *), void *arg) {
  int t = 0;
  for (int k = 1; k < nT; k++) if (T[k].st == T_DONE) { t = k; break; }
  if (!t) { if (nT >= MAXT) sx_incomplete("too many processes"); t = nT++; }
  T[t].st = T_READY; T[t].fn = fn; T[t].arg = arg; T[t].exited = 0; T[t].code = 0; T[t].catch_exit = 0;
  joined = 0;
  T[t].tid = sx_thread_new(entry, (void *)(long)t);
}
void vm_join_all(void) {
  if (cur_ != 0) sx_incomplete("join outside the harness thread");
  if (!joined) vm_block_on(&joined);
}
void vm_crash(void) {
  vm_crashed = 1;
  for (int t = 1; t < nT; t++) if (T[t].st != T_DONE) { vm_fs_process_end(t); T[t].st = T_DONE; }
  joined = 1;
  if (cur_ == 0) sx_fail("model: crash in the harness thread");
  go(0);
  sx_fail("model: a crashed process runs");
}
int vm_call_exit(void (*f)(void *), void *arg, int *code) {
  int before = nT, t;
  vm_spawn(f, arg);
  for (t = 1; t < nT; t++) if (T[t].st == T_READY && T[t].fn == f && T[t].arg == arg) break;
  (void)before;
  T[t].catch_exit = 1;
  vm_join_all();
  if (code) *code = T[t].code;
  return T[t].exited;
}
/* running out of memory: 1 any one allocation of a process fails, 2 every one from some point on */
int vm_oom, vm_oom_hit;
int vm_oom_now(void) {
  if (!vm_oom || cur_ == 0) return 0;
  if (vm_oom_hit) return vm_oom == 2;
  if (!sx_concrete(sx_choose("allocation fails", 2))) return 0;
  vm_oom_hit = 1;
  return 1;
}
void (*vm_exit_hook)(int code);
static void do_exit(int code) {
  int me = cur_;
  if (me != 0 && vm_exit_hook) vm_exit_hook(code);
  if (me == 0 || !(T[me].catch_exit || vm_exit_allowed)) sx_fail("the library terminated the calling process (exit)");
  T[me].exited = 1; T[me].code = code;
  finish(me);
}
void exit(int code) { do_exit(code); for (;;) ; }
void _exit(int code) { do_exit(code); for (;;) ; }
void abort(void) { sx_fail("the library terminated the calling process (abort)"); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { sx_fail("assertion in the library failed"); }
