/* MPI model: ranks are cooperative processes; sends block until they are received. */
#define _GNU_SOURCE
#include "vm.h"
#include "include/mpi.h"
#include <string.h>
#include <stdlib.h>
#define MAXR 320
unsigned long vm_segsize = 1024 * 1024;             /* bytes per file of the collective writer (KVTREE_VERIF_SEGSIZE) */
#define MAXQ 4096
#define MAXB 512
struct req { int used, send, me, peer, tag, comm, type, matched, waited; volatile int done; const void *sbuf; void *rbuf; size_t bytes; unsigned char *copy; int src, rtag; size_t got; long seq; int next; };
static struct req Q[MAXQ];
static int hiQ, freeQ, open_[MAXB];                  /* slots used so far, free slots, requests without a partner by receiver */
static long qseq;
int vm_mpi_size, vm_mpi_msgs;
static int rankof[MAXR + 1]; static void (*mfn)(int);
/* the communicator VM_COMM_GROUP: every rank belongs to one group and has a rank in it */
int vm_group[MAXR], vm_group_rank[MAXR];
static int ncomm = 4;
static int tsize(int t) {
  switch (t) { case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: return 1; case MPI_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: return 8; }
  sx_fail("MPI: invalid datatype");
}
static int self(void) { return rankof[vm_self()]; }
int vm_mpi_rank(void) { return vm_self() ? self() : -1; }
static void comm_ok(int c) { if (c == MPI_COMM_NULL || c >= ncomm) sx_fail("MPI: invalid communicator"); }
static int csize(int c) {
  comm_ok(c);
  if (c != VM_COMM_GROUP) return c == MPI_COMM_SELF ? 1 : vm_mpi_size;
  int n = 0;
  for (int r = 0; r < vm_mpi_size; r++) n += vm_group[r] == vm_group[self()];
  return n;
}
static int crank(int c) { comm_ok(c); return c == MPI_COMM_SELF ? 0 : c == VM_COMM_GROUP ? vm_group_rank[self()] : self(); }
static int cid(int c) { return c == MPI_COMM_SELF ? 1000 + self() : c == VM_COMM_GROUP ? 2000 + vm_group[self()] : c; }
static size_t nbytes(int count, int type) { int c = (int)sx_concrete((uint64_t)(int64_t)count); if (c < 0) sx_fail("MPI: negative count"); return (size_t)c * tsize(type); }
static int okpeer(int r, int comm) { return r >= 0 && r < csize(comm); }
static void pair(struct req *s, struct req *r) {
  if (s->type != r->type) sx_fail("MPI: send and receive use different datatypes");
  if (s->bytes > r->bytes) sx_fail("MPI: message longer than the receive buffer (truncation)");
  r->copy = s->bytes ? sx_alloc(s->bytes) : NULL;
  if (s->bytes) memcpy(r->copy, s->copy, s->bytes);
  r->got = s->bytes; r->src = s->me; r->rtag = s->tag;
  s->matched = r->matched = 1; s->done = r->done = 1;
  vm_mpi_msgs++;
}
static int fits(struct req *s, struct req *r) {
  return s->comm == r->comm && s->peer == r->me && (r->peer == MPI_ANY_SOURCE || r->peer == s->me) && (r->tag == MPI_ANY_TAG || r->tag == s->tag);
}
static int post(int send, const void *sb, void *rb, int count, int type, int peer, int tag, int comm) {
  int i;
  peer = (int)sx_concrete((uint64_t)(int64_t)peer);
  if (freeQ) { i = freeQ - 1; freeQ = Q[i].next; }
  else { if (hiQ == MAXQ) sx_incomplete("too many MPI requests"); i = hiQ++; }
  struct req *q = &Q[i];
  memset(q, 0, sizeof *q);
  q->used = 1; q->send = send; q->me = crank(comm); q->peer = peer; q->tag = tag; q->comm = cid(comm); q->type = type; q->bytes = nbytes(count, type); q->sbuf = sb; q->rbuf = rb; q->seq = ++qseq;
  if (peer == MPI_PROC_NULL) { q->done = q->matched = 1; q->src = MPI_PROC_NULL; q->rtag = MPI_ANY_TAG; q->bytes = 0; return i + 1; }
  if (!(okpeer(peer, comm) || (!send && peer == MPI_ANY_SOURCE))) sx_fail("MPI: invalid rank");
  if (send) { sx_access(sb, q->bytes, 0); if (q->bytes) { q->copy = sx_alloc(q->bytes); memcpy(q->copy, sb, q->bytes); } }
  else sx_access(rb, q->bytes, 1);
  struct req *cand[MAXR]; int nc = 0;
  int *head = &open_[(send ? peer : q->me) & (MAXB - 1)];
  for (int k = *head; k; k = Q[k - 1].next) {
    struct req *o = &Q[k - 1];
    if (o->send == send) continue;
    if (!(send ? fits(q, o) : fits(o, q))) continue;
    int dup = 0;
    for (int j = 0; j < nc; j++) if (cand[j]->me == o->me) { dup = 1; if (o->seq < cand[j]->seq) cand[j] = o; }
    if (!dup) cand[nc++] = o;
  }
  if (nc) {
    struct req *o = cand[nc > 1 ? (int)sx_concrete(sx_choose("message that matches first", nc)) : 0];
    for (int *l = head; *l; l = &Q[*l - 1].next) if (&Q[*l - 1] == o) { *l = o->next; break; }
    if (send) pair(q, o); else pair(o, q);
  } else { q->next = *head; *head = i + 1; }
  return i + 1;
}
static void complete(MPI_Request *rq, MPI_Status *st) {
  if (*rq == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->bytes_ = 0; } return; }
  int i = *rq - 1;
  if (i < 0 || i >= MAXQ || !Q[i].used) sx_fail("MPI: wait on an invalid request");
  struct req *q = &Q[i];
  vm_block_on(&q->done);
  if (q->send) {
    if (q->copy) { sx_check(memcmp(q->copy, q->sbuf, q->bytes) == 0, "MPI: send buffer changed before the send completed"); sx_release(q->copy); }
  } else if (q->copy) { memcpy(q->rbuf, q->copy, q->got); sx_release(q->copy); }
  if (st) { st->MPI_SOURCE = q->send ? 0 : q->src; st->MPI_TAG = q->rtag; st->MPI_ERROR = 0; st->bytes_ = q->got; }
  q->used = 0; q->copy = NULL; q->next = freeQ; freeQ = i + 1;
  *rq = MPI_REQUEST_NULL;
}
int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm, MPI_Request *r) { *r = post(1, b, NULL, c, t, d, tag, cm); return 0; }
int MPI_Irecv(void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm cm, MPI_Request *r) { *r = post(0, NULL, b, c, t, s, tag, cm); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { complete(r, s); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { for (int i = 0; i < n; i++) complete(&r[i], s ? &s[i] : NULL); return 0; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) { if (*r != MPI_REQUEST_NULL && !Q[*r - 1].done) { vm_force_yield(); if (!Q[*r - 1].done) { *f = 0; return 0; } } complete(r, s); *f = 1; return 0; }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !Q[r[i] - 1].done) { vm_force_yield(); *f = 0; return 0; } *f = 1; return MPI_Waitall(n, r, s); }
int MPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *s) {
  for (;;) {
    int any = 0;
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = 1; if (Q[r[i] - 1].done) { complete(&r[i], s); *ix = i; return 0; } }
    if (!any) { *ix = MPI_UNDEFINED; return 0; }
    vm_force_yield();
  }
}
int MPI_Send(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm) { MPI_Request r; MPI_Isend(b, c, t, d, tag, cm, &r); complete(&r, NULL); return 0; }
int MPI_Ssend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm) { return MPI_Send(b, c, t, d, tag, cm); }
int MPI_Issend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm cm, MPI_Request *r) { return MPI_Isend(b, c, t, d, tag, cm, r); }
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *ix, MPI_Status *s) {
  for (;;) {
    int any = 0, k = 0;
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = 1; if (Q[r[i] - 1].done) { complete(&r[i], s ? &s[k] : NULL); ix[k++] = i; } }
    if (!any) { *out = MPI_UNDEFINED; return 0; }
    if (k) { *out = k; return 0; }
    vm_force_yield();
  }
}
int MPI_Testany(int n, MPI_Request *r, int *ix, int *f, MPI_Status *s) {
  int any = 0;
  *f = 1; *ix = MPI_UNDEFINED;
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = 1; if (Q[r[i] - 1].done) { complete(&r[i], s); *ix = i; return 0; } }
  if (any) { *f = 0; vm_force_yield(); }
  return 0;
}
int MPI_Testsome(int n, MPI_Request *r, int *out, int *ix, MPI_Status *s) {
  int any = 0, k = 0;
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = 1; if (Q[r[i] - 1].done) { complete(&r[i], s ? &s[k] : NULL); ix[k++] = i; } }
  *out = any ? k : MPI_UNDEFINED;
  if (any && !k) vm_force_yield();
  return 0;
}
int MPI_Recv(void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm cm, MPI_Status *st) { MPI_Request r; MPI_Irecv(b, c, t, s, tag, cm, &r); complete(&r, st); return 0; }
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype sty, int d, int stag, void *rb, int rc, MPI_Datatype rt, int s, int rtag, MPI_Comm cm, MPI_Status *st) {
  MPI_Request a, b;
  MPI_Irecv(rb, rc, rt, s, rtag, cm, &a); MPI_Isend(sb, sc, sty, d, stag, cm, &b);
  complete(&a, st); complete(&b, NULL);
  return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *c) { *c = s->bytes_ % tsize(t) ? MPI_UNDEFINED : (int)(s->bytes_ / tsize(t)); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm cm, MPI_Status *st) {
  struct req f; memset(&f, 0, sizeof f); f.me = crank(cm); f.peer = src; f.tag = tag; f.comm = cid(cm);
  for (int spin = 0;; spin++) {
    struct req *best = NULL;
    for (int k = 0; k < hiQ; k++) if (Q[k].used && Q[k].send && !Q[k].matched && fits(&Q[k], &f) && (!best || Q[k].seq < best->seq)) best = &Q[k];
    if (best) { if (st) { st->MPI_SOURCE = best->me; st->MPI_TAG = best->tag; st->bytes_ = best->bytes; st->MPI_ERROR = 0; } return 0; }
    if (spin > 200) sx_fail("deadlock: MPI_Probe for a message that is never sent");
    vm_force_yield();
  }
}
/* ---- collectives */
enum { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SCAN, K_EXSCAN, K_ALLGATHER, K_GATHER, K_SCATTER, K_ALLTOALL, K_GATHERV, K_ALLGATHERV, K_SCATTERV, K_ALLTOALLV };
struct coll { int seq, kind, root, op, type, comm, arrived, left; size_t bytes; volatile int done; unsigned char *in[MAXR]; size_t inlen[MAXR]; };
#define MAXG 8
static struct coll C[4], CS[MAXR], CG[MAXG][4]; static int cseq[MAXR], gseq[MAXR];
static int64_t getv(const unsigned char *p, int t) {
  switch (t) {
    case MPI_INT: { int v; memcpy(&v, p, 4); return v; } case MPI_UNSIGNED: { unsigned v; memcpy(&v, p, 4); return v; }
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: { int64_t v; memcpy(&v, p, 8); return v; }
    case MPI_SHORT: { short v; memcpy(&v, p, 2); return v; } case MPI_CHAR: return (signed char)*p; case MPI_UNSIGNED_CHAR: case MPI_BYTE: return *p;
  }
  sx_incomplete("reduction of this datatype");
}
static void putv(unsigned char *p, int t, int64_t v) { memcpy(p, &v, tsize(t)); }
static int64_t apply(int op, int t, int64_t a, int64_t b) {
  int us = t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG;
  switch (op) {
    case MPI_SUM: return (int64_t)((uint64_t)a + (uint64_t)b); case MPI_PROD: return (int64_t)((uint64_t)a * (uint64_t)b);
    case MPI_MAX: return us ? ((uint64_t)a > (uint64_t)b ? a : b) : (a > b ? a : b); case MPI_MIN: return us ? ((uint64_t)a < (uint64_t)b ? a : b) : (a < b ? a : b);
    case MPI_LAND: return (a != 0) & (b != 0); case MPI_LOR: return (a != 0) | (b != 0); case MPI_BAND: return a & b; case MPI_BOR: return a | b;
  }
  sx_fail("MPI: invalid reduction operation");
}
static struct coll *enter(int kind, int root, int op, int type, size_t bytes, int comm, const void *in, size_t inbytes) {
  if (comm == MPI_COMM_SELF) {
    struct coll *c = &CS[self()];
    if (sx_concrete((uint64_t)(int64_t)root) != 0) sx_fail("MPI: invalid root");
    c->comm = comm; c->in[0] = NULL; c->inlen[0] = inbytes;
    if (in && inbytes) { c->in[0] = sx_alloc(inbytes); memcpy(c->in[0], in, inbytes); }
    return c;
  }
  comm_ok(comm);
  int me = crank(comm), n = csize(comm), g = comm == VM_COMM_GROUP, s = g ? gseq[self()]++ : cseq[self()]++;
  root = (int)sx_concrete((uint64_t)(int64_t)root);
  struct coll *c = g ? &CG[vm_group[self()]][s & 3] : &C[s & 3];
  if (root >= n || root < 0) sx_fail("MPI: invalid root");
  if (c->arrived == 0) { c->seq = s; c->kind = kind; c->root = root; c->op = op; c->type = type; c->bytes = bytes; c->comm = comm; c->left = 0; c->done = 0; }
  else {
    if (c->seq != s) sx_incomplete("collective ring");
    if (c->kind != kind || c->comm != comm) sx_fail("MPI: ranks call different collective operations");
    if (c->root != root) sx_fail("MPI: ranks disagree on the root of a collective operation");
    if (c->op != op) sx_fail("MPI: ranks disagree on the reduction operation");
    if (c->type != type || c->bytes != bytes) sx_fail("MPI: ranks disagree on the amount of data of a collective operation");
  }
  c->in[me] = NULL; c->inlen[me] = inbytes;
  if (in && inbytes) { c->in[me] = sx_alloc(inbytes); memcpy(c->in[me], in, inbytes); }
  if (++c->arrived == n) c->done = 1;
  vm_block_on(&c->done);
  return c;
}
static void leave(struct coll *c) {
  if (c->comm == MPI_COMM_SELF) { if (c->in[0]) sx_release(c->in[0]); return; }
  int n = csize(c->comm);
  if (++c->left < n) return;
  for (int i = 0; i < n; i++) if (c->in[i]) { sx_release(c->in[i]); c->in[i] = NULL; }
  c->arrived = 0;
}
int MPI_Barrier(MPI_Comm cm) { leave(enter(K_BARRIER, 0, 0, MPI_BYTE, 0, cm, NULL, 0)); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm cm) {
  size_t by = nbytes(n, t); int me = crank(cm);
  root = (int)sx_concrete((uint64_t)(int64_t)root);
  sx_access(b, by, me != root);
  struct coll *c = enter(K_BCAST, root, 0, t, by, cm, me == root ? b : NULL, by);
  if (me != root && by) memcpy(b, c->in[root], by);
  leave(c);
  return 0;
}
static int red(int kind, const void *in, void *out, int n, int t, int op, int root, int cm) {
  size_t by = nbytes(n, t); int me = crank(cm), N = csize(cm), es = tsize(t);
  if (in == MPI_IN_PLACE) in = out;
  sx_access(in, by, 0);
  struct coll *c = enter(kind, root, op, t, by, cm, in, by);
  int lo = 0, hi = N - 1, take = 1;
  if (kind == K_SCAN) hi = me;
  if (kind == K_EXSCAN) { hi = me - 1; take = me > 0; }
  if (kind == K_REDUCE) take = me == root;
  if (take) {
    sx_access(out, by, 1);
    for (int i = 0; i < (int)(by / es); i++) {
      int64_t v = getv(c->in[lo] + i * es, t);
      for (int r = lo + 1; r <= hi; r++) v = apply(op, t, v, getv(c->in[r] + i * es, t));
      putv((unsigned char *)out + i * es, t, v);
    }
  }
  leave(c);
  return 0;
}
int MPI_Reduce(const void *i, void *o, int n, MPI_Datatype t, MPI_Op op, int r, MPI_Comm c) { return red(K_REDUCE, i, o, n, t, op, r, c); }
int MPI_Allreduce(const void *i, void *o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red(K_ALLREDUCE, i, o, n, t, op, 0, c); }
int MPI_Scan(const void *i, void *o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red(K_SCAN, i, o, n, t, op, 0, c); }
int MPI_Exscan(const void *i, void *o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red(K_EXSCAN, i, o, n, t, op, 0, c); }
static int gat(int kind, const void *sb, int sn, int st, void *rb, int rn, int rt, int root, int cm) {
  size_t by = nbytes(sn, st); int me = crank(cm), N = csize(cm);
  struct coll *c = enter(kind, root, 0, st, by, cm, sb, by);
  if (kind == K_ALLGATHER || me == root) {
    if (nbytes(rn, rt) != by) sx_fail("MPI: gather counts differ");
    for (int r = 0; r < N; r++) if (by) memcpy((char *)rb + r * by, c->in[r], by);
  }
  leave(c);
  return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c) { return gat(K_ALLGATHER, s, n, t, r, m, u, 0, c); }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, int root, MPI_Comm c) { return gat(K_GATHER, s, n, t, r, m, u, root, c); }
int MPI_Scatter(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, int root, MPI_Comm cm) {
  int me = crank(cm), N = csize(cm); size_t by = nbytes(m, u);
  struct coll *c = enter(K_SCATTER, root, 0, u, by, cm, me == root ? s : NULL, by * N);
  if (by) memcpy(r, c->in[root] + me * by, by);
  leave(c);
  return 0;
}
int MPI_Alltoall(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm cm) {
  int me = crank(cm), N = csize(cm); size_t by = nbytes(n, t);
  struct coll *c = enter(K_ALLTOALL, 0, 0, t, by, cm, s, by * N);
  for (int k = 0; k < N; k++) if (by) memcpy((char *)r + k * by, c->in[k] + me * by, by);
  leave(c);
  return 0;
}
static int cnt(const int *a, int i) { return (int)sx_concrete((uint64_t)(int64_t)a[i]); }
static int gatv(int kind, const void *sb, int sn, int st, void *rb, const int *rc, const int *dp, int rt, int root, int cm) {
  size_t by = nbytes(sn, st), es = tsize(rt); int me = crank(cm), N = csize(cm);
  struct coll *c = enter(kind, root, 0, st, 0, cm, sb, by);
  if (kind == K_ALLGATHERV || me == root)
    for (int r = 0; r < N; r++) {
      if (nbytes(cnt(rc, r), rt) != c->inlen[r]) sx_fail("MPI: gather counts differ");
      if (c->inlen[r]) memcpy((char *)rb + (int64_t)cnt(dp, r) * (int64_t)es, c->in[r], c->inlen[r]);
    }
  leave(c);
  return 0;
}
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *dp, MPI_Datatype u, int root, MPI_Comm c) { return gatv(K_GATHERV, s, n, t, r, rc, dp, u, root, c); }
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *dp, MPI_Datatype u, MPI_Comm c) { return gatv(K_ALLGATHERV, s, n, t, r, rc, dp, u, 0, c); }
/* parts of one buffer, one per rank, packed with their sizes in front */
static unsigned char *packv(const void *s, const int *sc, const int *dp, int t, int N, size_t *len) {
  size_t es = tsize(t), n = N * sizeof(size_t), o;
  for (int r = 0; r < N; r++) n += nbytes(cnt(sc, r), t);
  unsigned char *b = sx_alloc(n); o = N * sizeof(size_t);
  for (int r = 0; r < N; r++) { size_t m = nbytes(cnt(sc, r), t); memcpy(b + r * sizeof(size_t), &m, sizeof m); if (m) memcpy(b + o, (const char *)s + (int64_t)cnt(dp, r) * (int64_t)es, m); o += m; }
  *len = n;
  return b;
}
static void takev(const unsigned char *b, int N, int me, void *out, size_t want) {
  size_t o = N * sizeof(size_t), m;
  for (int r = 0; r < me; r++) { memcpy(&m, b + r * sizeof(size_t), sizeof m); o += m; }
  memcpy(&m, b + me * sizeof(size_t), sizeof m);
  if (m != want) sx_fail("MPI: counts of a collective operation differ");
  if (m) memcpy(out, b + o, m);
}
int MPI_Scatterv(const void *s, const int *sc, const int *dp, MPI_Datatype t, void *r, int m, MPI_Datatype u, int root, MPI_Comm cm) {
  int me = crank(cm), N = csize(cm); size_t len = 0; unsigned char *b = NULL;
  root = (int)sx_concrete((uint64_t)(int64_t)root);
  if (me == root) b = packv(s, sc, dp, t, N, &len);
  struct coll *c = enter(K_SCATTERV, root, 0, u, 0, cm, b, len);
  if (b) sx_release(b);
  takev(c->in[root], N, me, r, nbytes(m, u));
  leave(c);
  return 0;
}
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype t, void *r, const int *rc, const int *rd, MPI_Datatype u, MPI_Comm cm) {
  int me = crank(cm), N = csize(cm); size_t len; unsigned char *b = packv(s, sc, sd, t, N, &len);
  struct coll *c = enter(K_ALLTOALLV, 0, 0, t, 0, cm, b, len);
  sx_release(b);
  for (int k = 0; k < N; k++) takev(c->in[k], N, me, (char *)r + (int64_t)cnt(rd, k) * (int64_t)tsize(u), nbytes(cnt(rc, k), u));
  leave(c);
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm cm, MPI_Status *st) {
  size_t by = nbytes(n, t); unsigned char *o = sx_alloc(by ? by : 1); int rc;
  if (by) memcpy(o, b, by);
  rc = MPI_Sendrecv(o, n, t, d, stag, b, n, t, s, rtag, cm, st);
  sx_release(o);
  return rc;
}
int MPI_Iprobe(int src, int tag, MPI_Comm cm, int *flag, MPI_Status *st) {
  struct req f, *best = NULL; memset(&f, 0, sizeof f); f.me = crank(cm); f.peer = src; f.tag = tag; f.comm = cid(cm);
  for (int k = 0; k < hiQ; k++) if (Q[k].used && Q[k].send && !Q[k].matched && fits(&Q[k], &f) && (!best || Q[k].seq < best->seq)) best = &Q[k];
  *flag = best != NULL;
  if (!best) vm_force_yield();
  else if (st) { st->MPI_SOURCE = best->me; st->MPI_TAG = best->tag; st->bytes_ = best->bytes; st->MPI_ERROR = 0; }
  return 0;
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = csize(c); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { MPI_Barrier(c); *o = c; return 0; }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Init(int *a, char ***b) { return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Abort(MPI_Comm c, int code) { sx_fail("the library called MPI_Abort"); }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t); return 0; }
double MPI_Wtime(void) { return 0.0; }
int MPI_Get_processor_name(char *n, int *l) { n[0] = 'h'; n[1] = 0; *l = 1; return 0; }
static void rank_main(void *a) { int r = (int)(long)a; rankof[vm_self()] = r; mfn(r); }
void vm_mpi_run(int n, void (*fn)(int)) {
  vm_mpi_size = n; mfn = fn;
  for (int i = 0; i < MAXR; i++) cseq[i] = gseq[i] = 0;
  for (int r = 0; r < n; r++) vm_spawn(rank_main, (void *)(long)r);
  vm_join_all();
  for (int k = 0; k < hiQ; k++) if (Q[k].used) {
    if (Q[k].matched) sx_fail("MPI: request never completed by a wait");
    sx_fail("MPI: message sent or expected but never matched");
  }
  for (int g = 0; g < MAXG; g++) for (int k = 0; k < 4; k++) if (CG[g][k].arrived) sx_fail("MPI: not every rank took part in a collective operation");
  for (int k = 0; k < 4; k++) if (C[k].arrived) sx_fail("MPI: not every rank took part in a collective operation");
}
