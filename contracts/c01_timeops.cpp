#include "vp.h"
#include "TimeObj.h"
#include "Exception.h"
#include <cmath>
#include "calendar.h"

// Callers are checked against the contract of Time::NormalizeTime (proved for every
// field value in c01_time.cpp), not against its body.
static int g_norm;
extern "C" void stub_normalize(Time * t) {
	g_norm++;
	int cal = t->m_eCalendarType;
	if (cal != Time::CalendarNoLeap && cal != Time::CalendarStandard) { _EXCEPTIONT("Invalid CalendarType"); }
	long ty = t->m_iYear + flo(t->m_iMonth, 12); int tm = (int)(t->m_iMonth - 12 * flo(t->m_iMonth, 12));
	long cs = flo(t->m_iMicroSecond, 1000000);
	long total = daynumber(cal, ty, tm, t->m_iDay) * 86400 + t->m_iSecond + cs;
	t->m_iMicroSecond = (int)(t->m_iMicroSecond - 1000000 * cs);
	if (vp_symbolic()) {
		t->m_iYear = vp_int("nyear", -30000, 30000); t->m_iMonth = vp_int("nmonth", 0, 11); t->m_iDay = vp_int("nday", 0, 30);
		t->m_iSecond = vp_int("nsecond", 0, 86399);
		vp_assume(t->m_iDay < monthlen(cal, t->m_iYear, t->m_iMonth));
		vp_assume(secs(cal, *t) == total);
	} else {
		long dn = flo(total, 86400); t->m_iSecond = (int)(total - 86400 * dn);
		long y = flo(dn, 366) - 2;
		while (daynumber(cal, y + 1, 0, 0) <= dn) y++;
		int m = 0; while (m < 11 && daynumber(cal, y, m + 1, 0) <= dn) m++;
		t->m_iYear = (int)y; t->m_iMonth = m; t->m_iDay = (int)(dn - daynumber(cal, y, m, 0));
	}
}

static int calendar() { vp_replace("_ZN4Time13NormalizeTimeEv", (void (*)())stub_normalize); g_norm = 0; return vp_choice("calendar", 1, 2); }

extern "C" void vc_time_add() {
	int cal = calendar();
	Time t = anytime(cal, 1000, 8000);
	Time o = t;
	int op = vp_choice("operation", 0, 4);
	long y = t.m_iYear, m = t.m_iMonth, d = t.m_iDay, s = t.m_iSecond;
	if (op == 0) { int n = vp_int("n", -1000000000, 1000000000); t.AddSeconds(n); s += n; }
	else if (op == 1) { int n = vp_int("n", -1000000000, 1000000000); t += n; s += n; }
	else if (op == 2) { int n = vp_int("n", -300000, 300000); t.AddDays(n); d += n; }
	else if (op == 3) { int n = vp_int("n", -10000, 10000); t.AddMonths(n); m += n; }
	else { int n = vp_int("n", -900, 900); t.AddYears(n); y += n; }
	vp_reach("added");
	long q = flo(m, 12);
	vp_check(secs(cal, t) == daynumber(cal, y + q, (int)(m - 12 * q), d) * 86400 + s, "adding an interval advances the instant by exactly that interval");
	vp_check(t.m_iMicroSecond == o.m_iMicroSecond, "adding an interval of seconds or longer leaves the microseconds alone");
	vp_check(t.m_iDay >= 0 && t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth), "the result of adding an interval is a date of the calendar");
	vp_check(t.GetCalendarType() == cal && t.GetTimeType() == Time::TypeFixed, "adding an interval keeps calendar and kind");
}

extern "C" void vc_time_addtime() {
	int cal = calendar();
	Time t = anytime(cal, 1000, 8000);
	Time o = t;
	Time dl((Time::CalendarType)cal, Time::TypeDelta);
	dl.m_iYear = vp_int("dy", -900, 900); dl.m_iMonth = vp_int("dmo", -1000, 1000); dl.m_iDay = vp_int("dd", -100000, 100000);
	dl.m_iSecond = vp_int("ds", -1000000000, 1000000000); dl.m_iMicroSecond = vp_int("dus", -1000000000, 1000000000);
	if (vp_choice("form", 0, 1)) t += dl; else t.AddTime(dl);
	vp_reach("added");
	long m = (long)o.m_iMonth + dl.m_iMonth, q = flo(m, 12), us = (long)o.m_iMicroSecond + dl.m_iMicroSecond, c = flo(us, 1000000);
	vp_check(secs(cal, t) == daynumber(cal, (long)o.m_iYear + dl.m_iYear + q, (int)(m - 12 * q), (long)o.m_iDay + dl.m_iDay) * 86400 + o.m_iSecond + dl.m_iSecond + c, "adding a time interval advances every field by the interval");
	vp_check(t.m_iMicroSecond == us - 1000000 * c, "adding a time interval advances the microseconds");
	vp_check(t.m_iDay >= 0 && t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth), "the result of adding an interval is a date of the calendar");
}

extern "C" void vc_time_addfixed() {
	int cal = calendar();
	Time t = anytime(cal, 1000, 8000), u = anytime(cal, 1000, 8000);
	bool thrown = false;
	try { t.AddTime(u); } catch (Exception &) { thrown = true; }
	vp_check(thrown, "a fixed time is rejected where an interval is required");
}

extern "C" void vc_time_construct() {
	int cal = calendar();
	int y = vp_int("y", 1000, 8000), mo = vp_int("mo", -1000, 1000), d = vp_int("d", -100000, 100000);
	int s = vp_int("s", -1000000000, 1000000000), us = vp_int("us", -1000000000, 1000000000);
	int ty = vp_choice("type", 0, 1);
	Time t(y, mo, d, s, us, (Time::CalendarType)cal, (Time::TimeType)ty);
	long q = flo(mo, 12), c = flo(us, 1000000);
	vp_check(secs(cal, t) == daynumber(cal, y + q, (int)(mo - 12 * q), d) * 86400 + s + c, "a constructed time denotes the requested instant");
	vp_check(t.m_iMicroSecond == us - 1000000 * c, "a constructed time keeps its microseconds");
	vp_check(t.GetYear() == t.m_iYear && t.GetMonth() == t.m_iMonth + (ty == 0) && t.GetDay() == t.m_iDay + (ty == 0) && t.GetSecond() == t.m_iSecond && t.GetMicroSecond() == t.m_iMicroSecond, "accessors report one-based month and day for fixed times");
}

static Time second(int cal) {
	Time t((Time::CalendarType)cal);
	t.m_iYear = vp_int("year", 0, 9999); t.m_iMonth = vp_choice("month2", 0, 11); t.m_iDay = vp_int("day", 0, 30);
	t.m_iSecond = vp_int("second", 0, 86399); t.m_iMicroSecond = vp_int("microsecond", 0, 999999);
	vp_assume(t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth));
	return t;
}
static Time first(int cal) {
	Time t((Time::CalendarType)cal);
	t.m_iYear = vp_int("year", 0, 9999); t.m_iMonth = vp_choice("month1", 0, 11); t.m_iDay = vp_int("day", 0, 30);
	t.m_iSecond = vp_int("second", 0, 86399); t.m_iMicroSecond = vp_int("microsecond", 0, 999999);
	vp_assume(t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth));
	return t;
}

extern "C" void vc_time_difference() {
	int cal = Time::CalendarNoLeap;
	Time a = first(cal), b = second(cal);
	double want = (double)(secs(cal, a) - secs(cal, b)) + (double)(a.m_iMicroSecond - b.m_iMicroSecond) * 1.0e-6;
	vp_check(fabs((a - b) - want) < 1.0e-3, "the difference of two times is the number of seconds between them");
	vp_check(fabs(a.GetSeconds() - ((double)secs(cal, a) + (double)a.m_iMicroSecond * 1.0e-6)) < 1.0e-3, "seconds since the origin of the calendar");
}

// lexicographic comparison of the fields: -1, 0, 1
static int lex(const Time & a, const Time & b) {
	if (a.m_iYear != b.m_iYear) return a.m_iYear < b.m_iYear ? -1 : 1;
	if (a.m_iMonth != b.m_iMonth) return a.m_iMonth < b.m_iMonth ? -1 : 1;
	if (a.m_iDay != b.m_iDay) return a.m_iDay < b.m_iDay ? -1 : 1;
	if (a.m_iSecond != b.m_iSecond) return a.m_iSecond < b.m_iSecond ? -1 : 1;
	if (a.m_iMicroSecond != b.m_iMicroSecond) return a.m_iMicroSecond < b.m_iMicroSecond ? -1 : 1;
	return 0;
}

extern "C" void vc_time_order() {
	int cal = vp_choice("calendar", 1, 2);
	Time a = anytime(cal, 0, 9999), b = anytime(cal, 0, 9999);
	int op = vp_choice("operation", 0, 5);
	int c = lex(a, b);
	if (op == 0) vp_check((a < b) == (c < 0), "earlier-than agrees with the order of instants");
	else if (op == 1) vp_check((a > b) == (c > 0), "later-than agrees with the order of instants");
	else if (op == 2) vp_check((a <= b) == (c <= 0), "not-later-than agrees with the order of instants");
	else if (op == 3) vp_check((a >= b) == (c >= 0), "not-earlier-than agrees with the order of instants");
	else if (op == 4) vp_check((a == b) == (c == 0), "equality of times is equality of instants");
	else vp_check(a.IsSameDate(b) == (a.m_iYear == b.m_iYear && a.m_iMonth == b.m_iMonth && a.m_iDay == b.m_iDay), "same-date agrees with the calendar day");
}

// lemma: on valid dates the lexicographic order of (year, month, day) is the order of day numbers
extern "C" void vc_time_order_lemma() {
	int cal = vp_choice("calendar", 1, 2);
	Time a = first(cal), b = second(cal);
	vp_assume(a.m_iYear < b.m_iYear || (a.m_iYear == b.m_iYear && (a.m_iMonth < b.m_iMonth || (a.m_iMonth == b.m_iMonth && a.m_iDay < b.m_iDay))));
	vp_check(daynumber(cal, a.m_iYear, a.m_iMonth, a.m_iDay) < daynumber(cal, b.m_iYear, b.m_iMonth, b.m_iDay), "lemma: lexicographic order of dates is the order of day numbers");
}

extern "C" void vc_time_mixed() {
	Time a = anytime(vp_choice("calendar1", 1, 2), 0, 9999), b = anytime(vp_choice("calendar2", 1, 2), 0, 9999);
	a.m_eTimeType = (Time::TimeType)vp_choice("type1", 0, 1); b.m_eTimeType = (Time::TimeType)vp_choice("type2", 0, 1);
	bool mixed = a.m_eTimeType != b.m_eTimeType || a.m_eCalendarType != b.m_eCalendarType;
	bool t1 = false, t2 = false;
	try { if (a < b) vp_reach("lt"); } catch (Exception &) { t1 = true; }
	try { if (a > b) vp_reach("gt"); } catch (Exception &) { t2 = true; }
	vp_check(t1 == mixed && t2 == mixed, "times of different calendars or kinds are not ordered");
	vp_check(!mixed || !(a == b), "times of different calendars or kinds are not equal");
	vp_check(!mixed || !a.IsSameDate(b), "times of different calendars or kinds have no common date");
}
