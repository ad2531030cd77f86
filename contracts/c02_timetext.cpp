#include "vp.h"
#include "TimeObj.h"
#include "Exception.h"
#include <string>
#include "calendar.h"

static bool same(const Time & a, const Time & b) {
	return a.m_iYear == b.m_iYear && a.m_iMonth == b.m_iMonth && a.m_iDay == b.m_iDay && a.m_iSecond == b.m_iSecond && a.m_iMicroSecond == b.m_iMicroSecond;
}

extern "C" void vc_text_long() {
	int cal = vp_choice("calendar", 1, 2);
	Time t = anytime(cal, 0, 9999);
	std::string s = t.ToLongString();
	vp_check(s.length() == 23, "the long text form has 23 characters");
	vp_check(s[4] == '-' && s[7] == '-' && s[10] == '-' && s[16] == '-', "the long text form separates fields by dashes");
	Time u((Time::CalendarType)cal);
	u.FromLongString(s);
	vp_check(same(t, u), "reading the long text form gives back the time");
	Time w(s, (Time::CalendarType)cal);
	vp_check(same(t, w) && w.GetCalendarType() == cal, "constructing from the long text form gives back the time");
}

extern "C" void vc_text_digits() {
	int cal = Time::CalendarNoLeap;
	Time t = anytime(cal, 0, 9999);
	int f = vp_choice("form", 0, 3);
	std::string s = f == 0 ? t.ToDateString() : f == 1 ? t.ToShortString() : f == 2 ? t.ToLongString() : t.ToString();
	int y = t.m_iYear, m = t.m_iMonth + 1, d = t.m_iDay + 1;
	vp_check((int)s.length() == (f == 0 ? 10 : f == 1 ? 16 : f == 2 ? 23 : t.m_iMicroSecond == 0 ? 19 : 26), "length of the text form");
	vp_check((s[0]-'0')*1000 + (s[1]-'0')*100 + (s[2]-'0')*10 + (s[3]-'0') == y && s[4] == '-', "the year is written in four digits");
	vp_check((s[5]-'0')*10 + (s[6]-'0') == m && s[7] == '-', "the month is written one-based in two digits");
	vp_check((s[8]-'0')*10 + (s[9]-'0') == d, "the day is written one-based in two digits");
	if (f == 1 || f == 2) {
		vp_check(s[10] == '-' && (s[11]-'0')*10000 + (s[12]-'0')*1000 + (s[13]-'0')*100 + (s[14]-'0')*10 + (s[15]-'0') == t.m_iSecond, "the second of the day is written in five digits");
	}
	if (f == 3) {
		vp_check(s[10] == ' ' && s[13] == ':' && s[16] == ':', "separators of the full text form");
		vp_check(((s[11]-'0')*10 + (s[12]-'0')) * 3600 + ((s[14]-'0')*10 + (s[15]-'0')) * 60 + (s[17]-'0')*10 + (s[18]-'0') == t.m_iSecond, "hours, minutes and seconds denote the second of the day");
		vp_check((s[14]-'0')*10 + (s[15]-'0') < 60 && (s[17]-'0')*10 + (s[18]-'0') < 60, "minutes and seconds are below sixty");
	}
}

// formatted reader inverts every writer, to the precision of the written form
extern "C" void vc_text_formatted() {
	int cal = vp_choice("calendar", 1, 2);
	Time t = anytime(cal, 1000, 9999);
	int f = vp_choice("form", 0, 3);
	if (f == 0) { vp_assume(t.m_iSecond == 0 && t.m_iMicroSecond == 0); }
	if (f == 1) { vp_assume(t.m_iMicroSecond == 0); }
	if (f == 2) { vp_assume(t.m_iMicroSecond == 0); }
	if (f == 3) { vp_assume(t.m_iMicroSecond != 0); }
	std::string s = f == 0 ? t.ToDateString() : f == 1 ? t.ToShortString() : t.ToString();
	Time u((Time::CalendarType)cal, Time::TypeDelta);
	u.FromFormattedString(s);
	vp_check(same(t, u), "reading a formatted time gives back the written time");
	vp_check(u.GetTimeType() == Time::TypeFixed, "a date is read as a fixed time");
}

extern "C" void vc_text_free() {
	int cal = Time::CalendarNoLeap;
	Time t = anytime(cal, 0, 9999);
	t.m_eTimeType = Time::TypeDelta;
	int mask = vp_choice("present", 1, 31);
	if (!(mask & 1)) t.m_iYear = 0; else vp_assume(t.m_iYear > 0);
	if (!(mask & 2)) t.m_iMonth = 0; else vp_assume(t.m_iMonth > 0);
	if (!(mask & 4)) t.m_iDay = 0; else vp_assume(t.m_iDay > 0);
	if (!(mask & 8)) t.m_iSecond = 0; else vp_assume(t.m_iSecond > 0);
	if (!(mask & 16)) t.m_iMicroSecond = 0; else vp_assume(t.m_iMicroSecond > 0);
	vp_assume(t.m_iDay < monthlen(cal, t.m_iYear, t.m_iMonth));
	std::string s = t.ToFreeString();
	Time u((Time::CalendarType)cal);
	u.FromFormattedString(s);
	vp_check(same(t, u), "reading the free text form gives back the interval");
	vp_check(u.GetTimeType() == Time::TypeDelta, "the free text form is read as an interval");
}

// items of any size: hours, minutes, seconds and microseconds in every combination
extern "C" void vc_text_items() {
	int mask = vp_choice("items", 1, 31);
	long d = 0, h = 0, m = 0, sec = 0, us = 0;
	std::string str; char b[32];
	if (mask & 1) { d = vp_int("d", 0, 9); sprintf(b, "%02id", (int)d); str += b; }
	if (mask & 2) { h = vp_int("h", 0, 479); sprintf(b, "%03ih", (int)h); str += b; }
	if (mask & 4) { m = vp_int("m", 0, 9999); sprintf(b, "%04im", (int)m); str += b; }
	if (mask & 8) { sec = vp_int("s", 0, 99999); sprintf(b, "%05is", (int)sec); str += b; }
	if (mask & 16) { us = vp_int("u", 0, 9999999); sprintf(b, "%07iu", (int)us); str += b; }
	long total = d * 86400 + h * 3600 + m * 60 + sec + us / 1000000;
	vp_assume(total < 31 * 86400L);	// the statement: a duration of less than a month
	Time u(Time::CalendarNoLeap);
	u.FromFormattedString(str);
	vp_check(u.GetTimeType() == Time::TypeDelta, "a list of items is read as a duration");
	vp_check(u.m_iYear == 0 && u.m_iMonth == 0, "a duration of less than a month has no months");
	vp_check(u.m_iDay * 86400L + u.m_iSecond == total && u.m_iMicroSecond == us % 1000000, "the duration is the sum of its items");
}
// items given twice, items without a number of their own unit, unknown units
extern "C" void vc_text_baditems() {
	static const char unit[] = "yMdhmsu";
	int a = vp_choice("item", 0, 6), k = vp_choice("kind", 0, 3);
	int n = vp_int("n", 1, 9), n2 = vp_int("n2", 1, 9);
	char b[64];
	if (k == 0) sprintf(b, "%i%c%i%c", n, unit[a], n2, unit[a]);
	else if (k == 1) sprintf(b, "%i%c%i", n, unit[a], n2);
	else if (k == 2) sprintf(b, "%i%c%i:%i", n, unit[a], n2, n);
	else sprintf(b, "%i-%i%c", n, n2, unit[a]);
	bool thrown = false;
	try { Time u(Time::CalendarNoLeap); u.FromFormattedString(std::string(b)); } catch (Exception &) { thrown = true; }
	vp_check(thrown, "repeated, dangling and mixed items are refused");
}

// a long string that does not denote a date of the calendar is rejected
extern "C" void vc_text_reject() {
	int cal = vp_choice("calendar", 1, 2);
	int y = vp_int("y", 0, 9999), m = vp_int("m", 0, 99), d = vp_int("d", 0, 99), s = vp_int("s", 0, 99999), us = vp_int("us", 0, 999999);
	char b[64];
	sprintf(b, "%04i-%02i-%02i-%05i-%06i", y, m, d, s, us);
	std::string str(b);
	if (vp_choice("short", 0, 1)) {
		bool th = false;
		try { Time u((Time::CalendarType)cal); u.FromLongString(str.substr(0, 22)); } catch (Exception &) { th = true; }
		vp_check(th, "a long text form of the wrong length is rejected");
		return;
	}
	bool thrown = false; Time u((Time::CalendarType)cal);
	try { u.FromLongString(str); } catch (Exception &) { thrown = true; }
	bool ok = m >= 1 && m <= 12 && d >= 1 && d <= monthlen(cal, y, m >= 1 && m <= 12 ? m - 1 : 0) && s < 86400;
	vp_check(thrown == !ok, "a text form is accepted exactly if it denotes a date of the calendar");
	if (!thrown) vp_check(u.m_iYear == y && u.m_iMonth == m - 1 && u.m_iDay == d - 1 && u.m_iSecond == s && u.m_iMicroSecond == us, "the fields of the text are the fields of the time");
}
extern "C" void vc_text_calname() {
	Time a(Time::CalendarNone), b(Time::CalendarNoLeap), c(Time::CalendarStandard);
	vp_check(a.GetCalendarName() == "none" && b.GetCalendarName() == "noleap" && c.GetCalendarName() == "standard", "calendar names");
}
