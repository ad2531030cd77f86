// Ghost MPI: the contract of point-to-point messages and sums between the ranks of
// a run.  A message arrives unchanged at the receive posted for its source, whatever
// the order of arrival; a rank waiting for a message lets the others run.
#ifndef VP_MPIGHOST_H
#define VP_MPIGHOST_H
#include "vp.h"
#include <mpi.h>
#include <cstring>
#include <cstdlib>
static const int GM_RANKS = 4, GM_REQ = 64;
static int gm_rank = 0, gm_size = 1;
static bool gm_lifo = false;             // messages arrive in the opposite order
struct GmMsg { bool sent, recvposted; char * data; int len; char * dst; int dstlen; };
static GmMsg * gm_msg[GM_RANKS][GM_RANKS];   // [from][to]
static void (*gm_run)(int rank) = 0;         // lets another rank run
static bool gm_started[GM_RANKS];
static int gm_polls;
static GmMsg & gm(int a, int b) { if (!gm_msg[a][b]) { gm_msg[a][b] = (GmMsg *)malloc(sizeof(GmMsg)); gm_msg[a][b]->sent = false; gm_msg[a][b]->recvposted = false; } return *gm_msg[a][b]; }
static void gm_init(int size) {
	gm_size = size; gm_rank = 0; gm_polls = 0;
	for (int a = 0; a < GM_RANKS; a++) { gm_started[a] = false; for (int b = 0; b < GM_RANKS; b++) gm_msg[a][b] = 0; }
}
extern "C" {
int MPI_Comm_rank(MPI_Comm, int * r) { *r = gm_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int * n) { *n = gm_size; return 0; }
int MPI_Irecv(void * b, int n, MPI_Datatype, int src, int, MPI_Comm, MPI_Request * q) {
	GmMsg & m = gm(src, gm_rank);
	vp_check(!m.recvposted, "one receive posted per source");
	m.recvposted = true; m.dst = (char *)b; m.dstlen = n;
	*q = (MPI_Request)(long)(1 + src * GM_RANKS + gm_rank);
	return 0;
}
#ifndef GM_OWN
int MPI_Isend(const void * b, int n, MPI_Datatype, int dst, int, MPI_Comm, MPI_Request * q) {
	GmMsg & m = gm(gm_rank, dst);
	vp_check(!m.sent, "one message sent per target");
	m.data = (char *)malloc(n);
	memcpy(m.data, b, n); m.len = n; m.sent = true;
	*q = (MPI_Request)(long)(1 + gm_rank * GM_RANKS + dst);
	return 0;
}
#endif
int MPI_Test(MPI_Request * q, int * f, MPI_Status *) {
	int id = (int)(long)*q - 1, src = id / GM_RANKS, dst = id % GM_RANKS;
	if (gm_lifo && gm_polls++ < gm_size - 1) { *f = 0; return 0; }
	gm_polls = 0;
	GmMsg & m = gm(src, dst);
	if (!m.sent && gm_run && !gm_started[src]) { int r = gm_rank; gm_started[src] = true; gm_rank = src; gm_run(src); gm_rank = r; }
	vp_check(m.sent, "the message waited for is sent");
	vp_check(m.len == m.dstlen, "message and receive have the same length");
	memcpy(m.dst, m.data, m.len); free(m.data); m.sent = false; m.recvposted = false;
	*f = 1;
	return 0;
}
int MPI_Waitall(int, MPI_Request *, MPI_Status *) { return 0; }
#ifndef GM_OWN
// one rank: a reduction is a copy
int MPI_Reduce(const void * a, void * b, int n, MPI_Datatype, MPI_Op, int, MPI_Comm) { memcpy(b, a, 8 * n); return 0; }
#endif
}
#endif
