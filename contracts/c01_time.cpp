#include "vp.h"
#include "TimeObj.h"

#include "calendar.h"

struct Ghost { Time * t; int cal; long total; long us; };

static int time_inv(void * p) {
	Ghost * g = (Ghost *)p; Time * t = g->t;
	if (t->m_iMonth < 0 || t->m_iMonth > 11) return 0;
	if (t->m_iSecond < 0 || t->m_iSecond >= 86400) return 0;
	if (t->m_iMicroSecond < 0 || t->m_iMicroSecond >= 1000000 || t->m_iMicroSecond != g->us) return 0;
	return daynumber(g->cal, t->m_iYear, t->m_iMonth, t->m_iDay) * 86400 + t->m_iSecond == g->total;
}
static int time_cand(void * p, int k) {
	Ghost * g = (Ghost *)p;
	if (k == 0) return leapyear(g->cal, g->t->m_iYear) ? 29 : 28;
	if (k == 1) return g->t->m_iDay;
	if (k == 2) return g->t->m_iMonth;
	return g->t->m_iYear;
}

static void wellformed(const Time & t, int cal) {
	vp_check(t.m_iMonth >= 0 && t.m_iMonth < 12, "month is in range after normalisation");
	vp_check(t.m_iDay >= 0 && t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth), "day exists in its month after normalisation");
	vp_check(t.m_iSecond >= 0 && t.m_iSecond < 86400, "second of day is in range after normalisation");
	vp_check(t.m_iMicroSecond >= 0 && t.m_iMicroSecond < 1000000, "microsecond is in range after normalisation");
}

static void norm_contract(int cal, int y, int mo, int d, int s, int us, bool loopcontract) {
	long ty = y + flo(mo, 12); int tm = (int)(mo - 12 * flo(mo, 12));
	long cs = flo(us, 1000000);
	Time t((Time::CalendarType)cal);
	t.m_iYear = y; t.m_iMonth = mo; t.m_iDay = d; t.m_iSecond = s; t.m_iMicroSecond = us;
	Ghost g; g.t = &t; g.cal = cal;
	g.total = daynumber(cal, ty, tm, d) * 86400 + s + cs;
	g.us = us - 1000000 * cs;
	if (loopcontract) {
		vp_loop("NormalizeTime", time_inv, &g, 4, time_cand);
		vp_loop_general("NormalizeTime", &g.total, sizeof(long));
		vp_loop_general("NormalizeTime", &g.us, sizeof(long));
		vp_loop_general("NormalizeTime", &t.m_iSecond, sizeof(int));
		vp_loop_general("NormalizeTime", &t.m_iMicroSecond, sizeof(int));
	}
	t.NormalizeTime();
	vp_reach("normalised");
	wellformed(t, cal);
	vp_check(daynumber(cal, t.m_iYear, t.m_iMonth, t.m_iDay) * 86400 + t.m_iSecond == g.total, "normalisation preserves the instant (days and seconds)");
	vp_check(t.m_iMicroSecond == g.us, "normalisation preserves the instant (microseconds)");
	if (t.m_iYear >= 0 && t.m_iYear <= 9999) t.VerifyTime();
}

// all fields arbitrary: the two month loops are cut by a loop contract
extern "C" void vc_time_normalize_any() {
	int cal = vp_choice("calendar", 1, 2);
	int y = vp_int("year", 2000, 7000), mo = vp_int("month", -12000, 12000), d = vp_int("day", -200000, 200000);
	int s = vp_int("second", -1000000000, 1000000000), us = vp_int("microsecond", -1000000000, 1000000000);
	norm_contract(cal, y, mo, d, s, us, true);
}

extern "C" void vc_time_normalize_near() {
	int cal = vp_choice("calendar", 1, 2);
	int y = vp_int("year", 4, 9990), mo = vp_choice("month", -13, 24), d = vp_int("day", -35, 65);
	int s = vp_int("second", -90000, 180000), us = vp_int("microsecond", -2000000, 2000000);
	norm_contract(cal, y, mo, d, s, us, false);
}
