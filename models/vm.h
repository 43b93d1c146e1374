/* Model controls used by harnesses. */
#ifndef VM_H
#define VM_H
#include "sx.h"
#include <sys/types.h>
/* ---- scheduler */
void vm_block_on(volatile int *flag);                    /* run others until *flag != 0; deadlock is a violation */
void vm_yield_point(const char *what);                   /* possible preemption */
extern int vm_sched_choose;                              /* 1: which waiting process continues is arbitrary */
void vm_force_yield(void);
extern int vm_dir_reverse;                               /* directory listing order */
extern int vm_preempt_budget;                            /* preemptions still allowed */
void vm_spawn(void (*fn)(void *), void *arg);            /* new process/rank */
void vm_join_all(void);                                  /* from thread 0: run the others to completion */
extern int vm_crashed;
void vm_crash(void) __attribute__((noreturn));           /* stop everything, continue thread 0 in vm_join_all */
int vm_self(void);
/* run f(arg) so that exit() inside it returns here; result: 0 returned, 1 exited */
int vm_call_exit(void (*f)(void *), void *arg, int *code);
extern int vm_exit_allowed;
extern void (*vm_exit_hook)(int code);                   /* called when a process exits */
/* ---- memory */
extern int vm_oom;                                       /* allocations of processes may fail: 1 any one, 2 all from any point on */
extern int vm_oom_hit;                                   /* one failed */
int vm_oom_now(void);
/* ---- stdout capture */
extern int vm_capture;                                   /* 1: format everything written to stdout */
extern char *vm_out; extern size_t vm_out_len;
void vm_out_reset(void);
/* ---- file system */
#define VM_OPEN 0x1
#define VM_READ_SHORT 0x2
#define VM_READ_INTR 0x4
#define VM_READ_ERR 0x8
#define VM_WRITE_SHORT 0x10
#define VM_WRITE_INTR 0x20
#define VM_WRITE_ERR 0x40
#define VM_CLOSE 0x80
#define VM_FSYNC 0x100
#define VM_LOCK 0x200
#define VM_SEEK 0x400
#define VM_TRUNC 0x800
#define VM_WRITE_ZERO 0x1000
#define VM_UNLOCK 0x2000
#define VM_ACCESS 0x4000
#define VM_WRITE_ERR_P 0x8000                             /* persistent: every later write on the file fails too */
#define VM_READ_ERR_P 0x10000
#define VM_OPEN_P 0x20000
#define VM_OPENDIR 0x40000
extern unsigned vm_faults;                               /* allowed fault kinds */
extern int vm_fault_budget;                              /* faults still allowed */
extern int vm_faults_injected;
extern int vm_intr_errno;                                /* error code of interrupted calls (0: either) */
extern int vm_max_io;                                    /* bytes transferred at most by one read or write (0: no limit) */
extern int vm_lock_errno;                               /* error code of the last lock fault */
extern int vm_fork_armed, vm_forked;                     /* at one system call another process may inherit every open descriptor */
void vm_fork_end(void);                                  /* ... and ends */
extern unsigned vm_faulted;                              /* kinds injected so far */
extern int vm_fault_rank;                                /* -1: any process; otherwise only this MPI rank */
extern const char *vm_fault_path;                        /* NULL: any file */
extern int vm_crash_armed;                               /* crash points enabled */
extern int vm_require_locks;                             /* content may be touched only under the proper lock */
extern mode_t vm_umask_val;
extern int vm_umask_calls;
void vm_fs_reset(void);
int vm_file_set(const char *path, const void *data, size_t n, mode_t mode);    /* create or replace */
int vm_file_exists(const char *path);
size_t vm_file_size(const char *path);
const unsigned char *vm_file_data(const char *path);
mode_t vm_file_mode(const char *path);
void vm_file_remove(const char *path);
void vm_file_truncate(const char *path, size_t n);
int vm_file_synced(const char *path);                    /* content equals what was last made durable */
int vm_file_count(void);
const char *vm_file_name(int i);
void vm_file_readable(const char *path, int ok);         /* access()/open() permission */
void vm_dir_add(const char *path);
int vm_open_fds(void);
int vm_locks_held(void);                                 /* locks currently held by anybody */
int vm_lock_kind(int fd);                                /* 0 none, 1 shared, 2 exclusive */
extern int vm_syscalls, vm_opens, vm_reads, vm_writes;
extern const char *vm_env_name, *vm_env_value;
/* ---- MPI */
extern int vm_mpi_size;
void vm_mpi_run(int n, void (*fn)(int rank));
extern int vm_mpi_msgs;
int vm_mpi_rank(void);                                   /* of the running process, among all */
#define VM_COMM_GROUP 3                                  /* communicator of the groups described by the arrays below (at most 8 groups) */
extern int vm_group[], vm_group_rank[];
#endif
