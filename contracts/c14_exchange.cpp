#include "world2.h"


static void runrank(int r) { g_g[r]->Exchange((DataType)g_type, 1); }
// where the node of global indices (a,b) of panel p lives: an interior node of panel q
static bool where(int p, int a, int b, int & q, int & qa, int & qb) {
	if (!g_cart) return fold(g_na, p, a, b, q, qa, qb);
	bool oa = a < 0 || a >= g_na, ob = b < 0 || b >= g_nb;
	if ((oa && !g_pa) || (ob && !g_pb)) return false;
	q = 0; qa = (a + g_na) % g_na; qb = (b + g_nb) % g_nb;
	return true;
}
static void check() {
	int np = g_g[0]->GetPatchCount();
	Arr a[2], b[2];
	for (int n = 0; n < np; n++) {
		GridPatch * p = patch(n);
		const PatchBox & box = p->GetPatchBox();
		int k = arrays(p, a, false);
		for (int s = 0; s < k; s++) for (int i = 0; i < a[s].na; i++) for (int j = 0; j < a[s].nb; j++) {
			int q, qa, qb, ga = box.GetAGlobalBegin() + i, gb = box.GetBGlobalBegin() + j;
			bool in = i >= box.GetAInteriorBegin() && i < box.GetAInteriorEnd() && j >= box.GetBInteriorBegin() && j < box.GetBInteriorEnd();
			bool ga_out = ga < 0 || ga >= g_na, gb_out = gb < 0 || gb >= g_nb;
			bool ex = !in;
			if (ex && !g_cart && !ga_out && !gb_out) { q = box.GetPanel(); qa = ga; qb = gb; }
			else if (ex) ex = where(box.GetPanel(), ga, gb, q, qa, qb);
			int m = np, ii = 0, jj = 0;
			if (ex) for (m = 0; m < np; m++) {
				const PatchBox & o = g_g[0]->GetPatchBox(m);
				if (o.GetPanel() == q && qa >= o.GetAGlobalInteriorBegin() && qa < o.GetAGlobalInteriorEnd() && qb >= o.GetBGlobalInteriorBegin() && qb < o.GetBGlobalInteriorEnd()) { ii = qa - o.GetAGlobalBegin(); jj = qb - o.GetBGlobalBegin(); break; }
			}
			vp_check(!ex || m < np, "some patch owns the node");
			for (int c = 0; c < a[s].nc; c++) for (int l = 0; l < a[s].nr; l++) {
				double x = a[s].d[((c * a[s].na + i) * a[s].nb + j) * a[s].nr + l];
				if (ex && a[s].sent[c]) {
					int w = g_g[0]->GetPatchBox(m).GetBTotalWidth(), h = g_g[0]->GetPatchBox(m).GetATotalWidth();
					vp_eq(x, g_old[m][s][((c * h + ii) * w + jj) * a[s].nr + l], "every halo node holds the value of the interior node it stands for");
				} else vp_eq(x, g_old[n][s][((c * a[s].na + i) * a[s].nb + j) * a[s].nr + l], "interior nodes and components stored elsewhere are not touched");
			}
		}
	}
}
static void rounds() {
	// buffers are attached in the first round only
	for (int round = 0; round < 2; round++) {
		if (round == 1) { if (!vp_choice("again", 0, 1)) break; gm_lifo = !gm_lifo; }
		fill();
		rank_loop();
		check();
	}
	vp_reach("done");
}
// The exchanges of a whole cubed sphere
extern "C" void vc_exchange_cs() {
	int order = vp_choice("order", 2, 4), ranks = vp_choice("ranks", 1, 3);
	int layout = vp_choice("layout", 0, 2);
	g_type = TY[vp_choice("type", 0, 6)];
	int stag = vp_choice("staggering", 0, 1);
	gm_lifo = vp_choice("lifo", 0, 1);
	setup_cs(3, 2, ranks, layout, order, 2, 1, stag ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Levels);
	rounds();
}
// The exchanges of a Cartesian box, periodic or not in each direction
extern "C" void vc_exchange_cart() {
	int order = vp_choice("order", 2, 4), ranks = vp_choice("ranks", 1, 3), patches = vp_choice("patches", 1, 4);
	int nea = vp_choice("elementsA", 1, 2), neb = vp_choice("elementsB", 1, 2);
	bool pa = vp_choice("periodicA", 0, 1) == 1, pb = vp_choice("periodicB", 0, 1) == 1;
	g_type = TY[vp_choice("type", 0, 6)];
	int stag = vp_choice("staggering", 0, 1);
	gm_lifo = vp_choice("lifo", 0, 1);
	setup_cart(3, 2, ranks, patches, nea * patches, neb, order, 2, 1, stag ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Levels, pa, pb);
	rounds();
}
static void unchanged(Grid * g) {
	Arr a[2];
	for (int n = 0; n < g->GetActivePatchCount(); n++) {
		int k = arrays(g->GetActivePatch(n), a, false);
		for (int s = 0; s < k; s++) for (int i = 0; i < a[s].nc * a[s].na * a[s].nb * a[s].nr; i++) vp_eq(a[s].d[i], g_old[n][s][i], "data unchanged");
	}
}
// Blocked exchanges do nothing; requests that cannot be served are refused
extern "C" void vc_exchange_refuse() {
	int what = vp_choice("what", 0, 8);
	gm_init(1); gm_run = runrank;
	g_m[0] = wmodel(3, 1, 1);
	g_g[0] = wcart(g_m[0], 2, 2, 2, 2, 2, 1, Grid::VerticalStaggering_CharneyPhillips, true, false);
	g_cart = true; g_na = 4; g_nb = 4; g_pa = true; g_pb = false;
	g_type = vp_choice("type", 0, 1) ? DataType_Tracers : DataType_State;
	fill();
	Grid * g = g_g[0];
	ExchangeBufferRegistry & reg = g->m_aExchangeBufferRegistry;
	bool threw = false;
	if (what == 0) {
		g->SetBlockParallelExchange(true);
		g->Exchange((DataType)g_type, 1);
		vp_check(!gm(0, 0).sent && !gm(0, 0).recvposted, "nothing is sent or received");
		unchanged(g);
		g->SetBlockParallelExchange(false);
		rank_loop();
		check();
		vp_reach("done");
		return;
	}
	GridPatch * p = g->GetActivePatch(0);
	ExchangeBuffer * own = 0, * other = 0;
	for (int b = 0; b < (int)reg.m_vecRegistry.size(); b++) (reg.m_vecRegistry[b].m_ixSourcePatch == p->GetPatchIndex() ? own : other) = &reg.m_vecRegistry[b];
	reg.PrepareExchange();
	for (int b = 0; b < (int)reg.m_vecRegistry.size(); b++) {
		// receive what is sent to oneself, then write at its start
		ExchangeBuffer & e = reg.m_vecRegistry[b];
		e.m_dRecvBuffer.SetSize(e.GetMessageSize() / sizeof(double));
		e.m_dRecvBuffer.AttachToData(&e.m_dSendBuffer[0]);
	}
	try {
		if (what == 1) { int ix = vp_int("instance", -2147483647, 2147483647); vp_assume(ix < 0 || ix > 1); p->PackExchangeBuffer((DataType)g_type, ix, *own); }
		if (what == 2) { int ix = vp_int("instance", -2147483647, 2147483647); vp_assume(ix < 0 || ix > 1); p->UnpackExchangeBuffer((DataType)g_type, ix, *own); }
		if (what == 3) p->PackExchangeBuffer((DataType)g_type, 1, *other);
		if (what == 4) p->UnpackExchangeBuffer((DataType)g_type, 1, *other);
		if (what == 5) p->PackExchangeBuffer((DataType)vp_choice("bad", 20, 21), 1, *own);
		if (what == 6) p->UnpackExchangeBuffer((DataType)vp_choice("bad", 20, 21), 1, *own);
		// more data than the message holds
		if (what == 7) for (int i = 0; i < 50; i++) p->PackExchangeBuffer((DataType)g_type, 1, *own);
		if (what == 8) for (int i = 0; i < 50; i++) p->UnpackExchangeBuffer((DataType)g_type, 1, *own);
	} catch (Exception &) { threw = true; }
	vp_check(threw, "refused");
	if (what != 8) unchanged(g);
	vp_reach("done");
}
// Whatever order the sender listed its blocks in, each reaches the neighbour it is
// meant for; a message with an unknown, missing or surplus block is refused
extern "C" void vc_exchange_attach() {
	int what = vp_choice("what", 0, 4);
	gm_init(1);
	g_m[0] = wmodel(3, 1, 1);
	g_g[0] = wcart(g_m[0], 2, 2, 1, 2, 2, 1, Grid::VerticalStaggering_Levels, true, true);
	ExchangeBufferRegistry & reg = g_g[0]->m_aExchangeBufferRegistry;
	std::vector<ExchangeBuffer *> & v = reg.m_vecRegistryByProcessor[0];
	int n = v.size();
	vp_check(n == 16, "eight neighbours of each patch");
	// the blocks of the message, rotated and possibly reversed
	int rot = vp_choice("rotate", 0, 15), rev = vp_choice("reverse", 0, 1), pos = 0;
	char * m = reg.m_vecRecvBuffers[0];
	int at[16];
	if (what == 4) { bool threw = false; try { reg.AttachRecvBuffers(vp_choice("proc", 0, 1) ? 1 : -1); } catch (Exception &) { threw = true; } vp_check(threw, "unknown processor refused"); vp_reach("done"); return; }
	for (int i = 0; i < n; i++) {
		int b = ((rev ? n - 1 - i : i) + rot) % n;
		ExchangeBuffer::MessageHeader h;
		v[b]->GetRecvMessageHeader(&h);
		if (what == 1 && i == n / 2) h.m_ixFirstPatch = 77;
		if (what == 2 && i == n / 2) h.m_ixSecondPatch = 77;
		if (what == 3 && i == n / 2) h.m_ixDirection = 99;
		*(ExchangeBuffer::MessageHeader *)(m + pos) = h;
		at[b] = pos;
		pos += v[b]->GetMessageSize();
	}
	vp_check(pos == reg.m_vecBufferSize[0], "the message is as long as its blocks");
	bool threw = false;
	try { reg.AttachRecvBuffers(0); } catch (Exception &) { threw = true; }
	if (what == 0) {
		vp_check(!threw, "accepted");
		for (int b = 0; b < n; b++) {
			vp_check((char *)&v[b]->m_dRecvBuffer[0] == m + at[b], "each block is read by the neighbour it is meant for");
			vp_check(v[b]->m_dRecvBuffer.GetRows() * 8 == v[b]->GetMessageSize(), "whole block");
		}
	} else vp_check(threw, "unknown block refused");
	vp_reach("done");
}
