#ifndef VP_CALENDAR_H
#define VP_CALENDAR_H
// ---------------------------------------------------------------- specification
// Independent calendar: day number of 1 January of a year, days before a month.
static long flo(long a, long b) { return (a >= 0) ? (a / b) : -((b - 1 - a) / b); }
static bool leapyear(int cal, long y) {
	if (cal != Time::CalendarStandard) return false;
	return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
static long leapsbefore(int cal, long y) {
	if (cal != Time::CalendarStandard) return 0;
	return flo(y - 1, 4) - flo(y - 1, 100) + flo(y - 1, 400);
}
static const int CUM[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
static const int LEN[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static long daynumber(int cal, long y, int m, long d) {
	return 365 * y + leapsbefore(cal, y) + CUM[m] + ((m > 1 && leapyear(cal, y)) ? 1 : 0) + d;
}
static int monthlen(int cal, long y, int m) { return LEN[m] + ((m == 1 && leapyear(cal, y)) ? 1 : 0); }

static long secs(int cal, const Time & t) { return daynumber(cal, t.m_iYear, t.m_iMonth, t.m_iDay) * 86400 + t.m_iSecond; }
static Time anytime(int cal, int ylo, int yhi) {
	Time t((Time::CalendarType)cal);
	t.m_iYear = vp_int("year", ylo, yhi); t.m_iMonth = vp_int("month", 0, 11); t.m_iDay = vp_int("day", 0, 30);
	t.m_iSecond = vp_int("second", 0, 86399); t.m_iMicroSecond = vp_int("microsecond", 0, 999999);
	vp_assume(t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth));
	return t;
}
#endif
