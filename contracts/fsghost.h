// Ghost file system of one file for std::ofstream and std::ifstream: bytes written are
// the bytes read.  Only the prover uses it; native replays use real files.
#ifndef VP_FSGHOST_H
#define VP_FSGHOST_H
#include "vp.h"
#include <fstream>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
static const char * fs_real = "vpd/p.T.restart.dat";
static char * fs_data = 0, * fs_name = 0;
static int fs_len, fs_put, fs_get, fs_mode;	// mode: 0 closed, 1 writing, 2 reading
static bool fs_missing;
static const int FS_MAX = 1 << 20;
static long fs_otab[4] = {248, 0, 0, 0}, fs_itab[4] = {256, 0, 0, 0};
static int & fs_state(void * p) { return *(int *)((char *)p + 32); }	// of a basic_ios
extern "C" {
void fs_octor(char * f) { *(long **)f = fs_otab + 3; fs_state(f + 248) = 0; }
void fs_ictor(char * f) { *(long **)f = fs_itab + 3; fs_state(f + 256) = 0; }
void fs_dtor(char * f) { fs_mode = 0; }
void fs_nop(void *) { }
void * fs_open(void * b, const char * name, int mode) {
	vp_check(fs_mode == 0, "the file is not open twice");
	if (mode & std::ios::out) {
		if (!fs_data) { fs_data = (char *)malloc(FS_MAX); fs_name = (char *)malloc(64); }
		strcpy(fs_name, name); fs_len = fs_put = 0; fs_mode = 1;
		return b;
	}
	if (!fs_name || strcmp(fs_name, name) != 0) return 0;
	fs_get = 0; fs_mode = 2;
	return b;
}
void * fs_close(void * b) { void * r = fs_mode ? b : 0; fs_mode = 0; return r; }
bool fs_isopen(const void *) { return fs_mode != 0; }
void fs_clear(void * s, int st) { fs_state(s) = st; }
void * fs_write(void * f, const char * d, long n) {
	vp_check(fs_mode == 1, "writing to an open file");
	vp_check(n >= 0 && fs_put + n <= FS_MAX, "size of a write");
	vp_check(fs_put <= fs_len || fs_put + n <= FS_MAX, "position of a write");
	memcpy(fs_data + fs_put, d, n);
	fs_put += n; if (fs_put > fs_len) fs_len = fs_put;
	return f;
}
void * fs_read(void * f, char * d, long n) {
	vp_check(fs_mode == 2, "reading from an open file");
	vp_check(n >= 0 && fs_get >= 0, "reading inside the file");
	if (fs_state((char *)f + 256)) { fs_state((char *)f + 256) |= 4; return f; }
	if (fs_get + n > fs_len) { n = fs_get < fs_len ? fs_len - fs_get : 0; fs_state((char *)f + 256) |= 6; }
	memcpy(d, fs_data + fs_get, n);
	fs_get += n;
	return f;
}
std::streampos fs_tellp(void *) { return std::streampos(fs_put); }
std::streampos fs_tellg(void * f) { if (fs_state((char *)f + 256)) return std::streampos(-1); return std::streampos(fs_get); }
void * fs_seekp(void * f, std::streampos p) { fs_put = (int)(long)p; return f; }
void * fs_seekg(void * f, std::streampos p) { if (!fs_state((char *)f + 256)) fs_get = (int)(long)p; return f; }
void vp_model(const char *, void (*)());	// vp_replace for the prover alone, where the function is used
}
#ifdef VP_NATIVE
extern "C" void vp_model(const char *, void (*)()) { }
#endif
// what happened to the file since: shortened, first word changed
static void fs_cut(int n) { if (vp_symbolic()) fs_len = n; else if (truncate(fs_real, n)) abort(); }
static int fs_size() { if (vp_symbolic()) return fs_len; struct stat b; return stat(fs_real, &b) ? -1 : (int)b.st_size; }
static void fs_spoil() {
	if (vp_symbolic()) { fs_data[1] ^= 4; return; }
	int h = open(fs_real, O_RDWR); char c;
	if (pread(h, &c, 1, 1) != 1) abort();
	c ^= 4; if (pwrite(h, &c, 1, 1) != 1) abort();
	close(h);
}
static void fs_init() {
	fs_data = fs_name = 0; fs_len = fs_put = fs_get = fs_mode = 0; fs_missing = false;
#define M(a, b) vp_model(a, (void (*)())b);
	M("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev", fs_octor) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1Ev", fs_ictor)
	M("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev", fs_dtor) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev", fs_dtor)
	M("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED2Ev", fs_dtor) M("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED2Ev", fs_dtor)
	M("_ZNSt13basic_filebufIcSt11char_traitsIcEED2Ev", fs_nop) M("_ZNSt8ios_baseD2Ev", fs_nop)
	M("_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode", fs_open) M("_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv", fs_close)
	M("_ZNKSt12__basic_fileIcE7is_openEv", fs_isopen) M("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate", fs_clear)
	M("_ZNSo5writeEPKcl", fs_write) M("_ZNSi4readEPcl", fs_read) M("_ZNSo5tellpEv", fs_tellp) M("_ZNSi5tellgEv", fs_tellg)
	M("_ZNSo5seekpESt4fposI11__mbstate_tE", fs_seekp) M("_ZNSi5seekgESt4fposI11__mbstate_tE", fs_seekg)
#undef M
}
#endif
