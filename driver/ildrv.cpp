// ildrv: executes scripts of DevIL API calls and records, after every call, what the call
// returned and the observable state.  One JSON line per script; each script runs in its own
// forked process, so that a crash is confined to the script and becomes a "Crash" event.
//
//   ildrv SCRIPTS OUT [FIRST STEP]
//
// Every observation uses the public API (il.h, ilu.h, ilut.h) and the exported image
// structure (devil_internal_exports.h).
#include <IL/il.h>
#include <IL/ilu.h>
#include <IL/ilut.h>
#include <IL/devil_internal_exports.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <functional>
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>

// One and the same moment for every time stamp in a file.
extern "C" time_t time(time_t *t) noexcept { if (t) *t = 1000000000; return 1000000000; }

typedef std::string str;
typedef std::vector<long long> ints;
typedef std::vector<unsigned char> bytes;

// ------------------------------------------------------------------ tracked allocator
static std::unordered_map<const void*, size_t> *live;
static long alloc_seen = 0, alloc_fail_at = 0, alloc_failed = 0;   // fail the k-th from now (1..)
static bool alloc_fail_sticky = false;
static size_t live_bytes = 0;
static const size_t ALLOC_CAP = 96u << 20;

static void *ILAPIENTRY drv_alloc(const ILsizei n) {
	alloc_seen++;
	if (alloc_fail_at > 0 && (alloc_seen == alloc_fail_at || (alloc_fail_sticky && alloc_seen > alloc_fail_at))) { alloc_failed++; return NULL; }
	if (n > ALLOC_CAP || live_bytes > 4 * ALLOC_CAP) return NULL;
	void *p = malloc(n ? n : 1);
	if (!p) return NULL;
	memset(p, 0xCB, n < (1u << 22) ? n : (1u << 22));
	(*live)[p] = n;
	live_bytes += n;
	return p;
}
static void ILAPIENTRY drv_free(const void *p) {
	auto it = live->find(p);
	if (it != live->end()) { live_bytes -= it->second; live->erase(it); }
	free((void *)p);          // a block not ours (strdup'ed strings) is also freed; a bad one is ASan's
}
static long alloc_size(const void *p) {
	auto it = live->find(p);
	return it == live->end() ? -1 : (long)it->second;
}

// ------------------------------------------------------------------ virtual files with fault injection
struct VFile { bytes data; bool exists; };
struct VHandle { str name; long pos; bool wr; bool open; };
static std::map<str, VFile> vfs;
static std::vector<VHandle *> handles;      // never freed: use after close must be visible
static long n_open = 0, n_close = 0, n_bad = 0;       // opens, closes, misuse (closed/NULL/double close)
static long io_seen = 0, io_fail_at = 0;    // fail the k-th read or write call from now
static int io_fail_kind = 0;                // 0: all later fail too (disk full)   1: only that one
static long open_fail = 0;                  // fail the next k opens
static long io_failed = 0;

static bool io_fault() {
	io_seen++;
	if (io_fail_at > 0 && (io_seen == io_fail_at || (io_fail_kind == 0 && io_seen > io_fail_at))) { io_failed++; return true; }
	return false;
}
static VHandle *H(ILHANDLE h) {
	for (auto x : handles) if ((ILHANDLE)x == h) { if (!x->open) { n_bad++; return NULL; } return x; }
	n_bad++;
	return NULL;
}
static ILHANDLE ILAPIENTRY v_openr(ILconst_string name) {
	if (open_fail > 0) { open_fail--; return NULL; }
	auto it = vfs.find(name);
	if (it == vfs.end() || !it->second.exists) return NULL;
	VHandle *h = new VHandle{ name, 0, false, true };
	handles.push_back(h);
	n_open++;
	return (ILHANDLE)h;
}
static void ILAPIENTRY v_close(ILHANDLE f) {
	VHandle *h = H(f);
	if (!h) return;
	h->open = false;
	n_close++;
}
static ILHANDLE ILAPIENTRY v_openw(ILconst_string name) {
	if (open_fail > 0) { open_fail--; return NULL; }
	vfs[name].data.clear();
	vfs[name].exists = true;
	VHandle *h = new VHandle{ name, 0, true, true };
	handles.push_back(h);
	n_open++;
	return (ILHANDLE)h;
}
static ILboolean ILAPIENTRY v_eof(ILHANDLE f) {
	VHandle *h = H(f);
	if (!h) return IL_TRUE;
	return h->pos >= (long)vfs[h->name].data.size();
}
static ILint ILAPIENTRY v_read(void *buf, ILuint size, ILuint num, ILHANDLE f) {
	VHandle *h = H(f);
	if (!h || size == 0) return 0;
	if (io_fault()) return 0;
	bytes &d = vfs[h->name].data;
	unsigned long long want = (unsigned long long)size * num;
	unsigned long long have = h->pos < (long)d.size() ? d.size() - h->pos : 0;
	unsigned long long n = std::min(want, have);
	memcpy(buf, d.data() + h->pos, n);
	h->pos += n;
	return (ILint)(n / size);
}
static ILint ILAPIENTRY v_getc(ILHANDLE f) {
	unsigned char c;
	if (v_read(&c, 1, 1, f) != 1) { ilSetError(IL_FILE_READ_ERROR); return IL_EOF; }   // what the default callback does
	return c;
}
static ILint ILAPIENTRY v_seek(ILHANDLE f, ILint off, ILint mode) {
	VHandle *h = H(f);
	if (!h) return -1;
	long base = mode == IL_SEEK_SET ? 0 : mode == IL_SEEK_CUR ? h->pos : (long)vfs[h->name].data.size();
	if (base + off < 0) return -1;
	h->pos = base + off;
	return 0;
}
static ILint ILAPIENTRY v_tell(ILHANDLE f) {
	VHandle *h = H(f);
	return h ? (ILint)h->pos : -1;
}
static ILint ILAPIENTRY v_write(const void *buf, ILuint size, ILuint num, ILHANDLE f) {
	VHandle *h = H(f);
	if (!h) return 0;
	if (!h->wr) { n_bad++; return 0; }
	if (io_fault()) return 0;
	bytes &d = vfs[h->name].data;
	size_t n = (size_t)size * num;
	if (h->pos + n > (64u << 20)) return 0;
	if (d.size() < h->pos + n) d.resize(h->pos + n);
	memcpy(d.data() + h->pos, buf, n);
	h->pos += n;
	return num;
}
static ILint ILAPIENTRY v_putc(ILubyte c, ILHANDLE f) { return v_write(&c, 1, 1, f) == 1 ? c : IL_EOF; }

static void use_vfs() {
	ilSetRead(v_openr, v_close, v_eof, v_getc, v_read, v_seek, v_tell);
	ilSetWrite(v_openw, v_close, v_putc, v_seek, v_tell, v_write);
}

// ------------------------------------------------------------------ JSON output
static str out;
static void J(const char *f, ...) {
	char b[512];
	va_list v;
	va_start(v, f);
	vsnprintf(b, sizeof b, f, v);
	va_end(v);
	out += b;
}
static long long s32(long long v) { return (long long)(int)(unsigned)v; }   // TLC integers are 32 bits
static void Jints(const char *k, const ints &v) {
	J("\"%s\":[", k);
	for (size_t i = 0; i < v.size(); i++) J("%s%lld", i ? "," : "", s32(v[i]));
	out += "]";
}
static void Jbytes(const char *k, const unsigned char *p, size_t n) {
	J("\"%s\":[", k);
	for (size_t i = 0; i < n; i++) J("%s%d", i ? "," : "", p[i]);
	out += "]";
}
static str jstr(const str &s) {
	str r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "~%02x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static unsigned hash_bytes(const unsigned char *p, size_t n) {
	unsigned h = 2166136261u;
	for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u;
	h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
	return h;
}

// ------------------------------------------------------------------ observation
static size_t max_data = 1400;
static int tree_budget;

static size_t data_len(const ILimage *im) {          // how much of Data may be read
	if (!im->Data) return 0;
	long a = alloc_size(im->Data);
	size_t n = im->SizeOfData;
	if (a >= 0 && n > (size_t)a) n = a;
	return n;
}
static void Jimage_body(const ILimage *im, bool data) {
	ints h = { im->Width, im->Height, im->Depth, im->Bpp, im->Bpc, im->Bps, im->SizeOfData, im->SizeOfPlane,
		im->Format, im->Type, im->Origin, im->Duration, im->OffX, im->OffY, im->CubeFlags,
		im->Pal.PalType, im->Pal.PalSize, im->Data ? alloc_size(im->Data) : -2,
		im->Pal.Palette ? alloc_size(im->Pal.Palette) : -2 };
	Jints("h", h);
	if (data) {
		size_t n = data_len(im);
		out += ",";
		if (n <= max_data) Jbytes("d", im->Data, n);
		else { unsigned hv = hash_bytes(im->Data, n); J("\"d\":[-1,%u,%u]", hv >> 16, hv & 0xffff); }
		size_t p = im->Pal.Palette ? im->Pal.PalSize : 0;
		long a = im->Pal.Palette ? alloc_size(im->Pal.Palette) : 0;
		if (a >= 0 && p > (size_t)a) p = a;
		out += ",";
		if (p <= max_data) Jbytes("p", im->Pal.Palette, p);
		else { unsigned hv = hash_bytes(im->Pal.Palette, p); J("\"p\":[-1,%u,%u]", hv >> 16, hv & 0xffff); }
		if (im->Type == IL_FLOAT || im->Type == IL_DOUBLE) {       // channel values in 1/65535ths
			ints f;
			size_t m = n / (im->Type == IL_FLOAT ? 4 : 8);
			if (m > max_data) { f.push_back(-9); m = 0; }
			for (size_t i = 0; i < m; i++) {
				double v = im->Type == IL_FLOAT ? ((float *)im->Data)[i] : ((double *)im->Data)[i];
				if (v != v) { f.push_back(-99999); continue; }
				v = v > 30000 ? 30000 : v < -30000 ? -30000 : v;
				f.push_back((long long)std::floor(v * 65535.0 + 0.5));
			}
			out += ",";
			Jints("f", f);
		}
	}
}
static void Jtree(const ILimage *im, bool data) {
	if (tree_budget-- <= 0) { out += "{\"h\":[]}"; return; }
	out += "{";
	Jimage_body(im, data);
	const ILimage *sub[4] = { im->Next, im->Mipmaps, im->Layers, im->Faces };
	const char *nm[4] = { "N", "M", "L", "F" };
	for (int i = 0; i < 4; i++) {
		J(",\"%s\":[", nm[i]);
		if (sub[i]) Jtree(sub[i], data);
		out += "]";
	}
	out += "}";
}

struct Script { str id; std::vector<str> lines; };

static bool o_err = true, o_img = false, o_tree = false, o_live = false, o_io = false, o_nav = false, o_nodata = false, o_hash = false, o_all = false;
static ints used_names;
static ints gen_names;          // names the library handed out, in order: $1, $2, ... in scripts

static void note_name(long long n, bool from_lib = false) {
	if (n > 0 && n < 5000 && from_lib) gen_names.push_back(n);
	if (n >= 0 && n < 5000 && std::find(used_names.begin(), used_names.end(), n) == used_names.end()) used_names.push_back(n);
}
// Dump the tree of an image without disturbing the binding.
static std::map<long long, str> audited;       // what the last audit saw: only changes are logged
static void Jaudit() {
	ILimage *cur = ilGetCurImage();
	ILuint name = ilGetCurName();
	ints ns;
	out += "[";
	bool first = true;
	std::sort(used_names.begin(), used_names.end());
	for (long long n : used_names) {
		if (n != 0 && !ilIsImage((ILuint)n)) { audited.erase(n); continue; }
		ilBindImage((ILuint)n);
		ns.push_back(n);
		str keep;
		keep.swap(out);
		tree_budget = 1000;
		if (ilGetCurImage()) Jtree(ilGetCurImage(), !o_nodata);
		keep.swap(out);
		auto it = audited.find(n);
		if (it != audited.end() && it->second == keep) continue;
		audited[n] = keep;
		J("%s{\"n\":%lld,\"t\":", first ? "" : ",", n);
		first = false;
		out += keep + "}";
	}
	out += "],";
	Jints("ns", ns);
	if (name == 0 || ilIsImage(name)) ilBindImage(name);
	ilSetCurImage(cur);
}
static void Jbase() {
	ILimage *cur = ilGetCurImage();
	ILuint name = ilGetCurName();
	if (cur == NULL) { out += "[]"; return; }
	out += "[";
	if (name == 0 || ilIsImage(name)) {
		ilBindImage(name);
		tree_budget = 1000;
		Jtree(ilGetCurImage(), !o_nodata);
		ilSetCurImage(cur);
	}
	out += "]";
}

// ------------------------------------------------------------------ commands
struct Ev { str op; ints a; ints o; str sa; bytes d; long long r; bool hasd; };
static Ev ev;
static std::vector<ints> saved_errs;

static long long num(const str &s) { return strtoll(s.c_str(), NULL, 0); }
static bytes hex(const str &s) {
	bytes b;
	if (s.compare(0, 2, "r:") == 0) {          // r:SEED:N pseudo-random, r:SEED:N:K with K distinct values
		long long seed = 0, n = 0, k = 256;
		sscanf(s.c_str(), "r:%lld:%lld:%lld", &seed, &n, &k);
		unsigned x = (unsigned)seed * 2654435761u + 12345;
		for (long long i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; b.push_back((unsigned char)((x >> 16) % 256 % k)); }
		return b;
	}
	size_t i = s.compare(0, 2, "x:") == 0 ? 2 : 0;
	for (; i + 1 < s.size(); i += 2) b.push_back((unsigned char)strtol(s.substr(i, 2).c_str(), NULL, 16));
	return b;
}
static std::vector<str> split(const str &l) {
	std::vector<str> t;
	size_t i = 0;
	while (i < l.size()) {
		while (i < l.size() && l[i] == ' ') i++;
		size_t j = i;
		while (j < l.size() && l[j] != ' ') j++;
		if (j > i) t.push_back(l.substr(i, j - i));
		i = j;
	}
	return t;
}

// registered load/save procedures: r1.. are distinguishable
static ints proc_log;
static long long proc_ret[8] = { 0 };
template <int K> static ILenum ILAPIENTRY reg_load(ILconst_string) {
	proc_log.push_back(K);
	if (!proc_ret[K]) { ilTexImage(K + 1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL); memset(ilGetData(), K, K + 1); }
	return (ILenum)proc_ret[K];
}
template <int K> static ILenum ILAPIENTRY reg_save(ILconst_string) { proc_log.push_back(100 + K); return (ILenum)proc_ret[K]; }
static IL_LOADPROC loaders[8] = { reg_load<0>, reg_load<1>, reg_load<2>, reg_load<3>, reg_load<4>, reg_load<5>, reg_load<6>, reg_load<7> };
static IL_SAVEPROC savers[8] = { reg_save<0>, reg_save<1>, reg_save<2>, reg_save<3>, reg_save<4>, reg_save<5>, reg_save<6>, reg_save<7> };

static std::map<str, bytes> mems;          // lumps
static void file_digest(const bytes &b) {
	unsigned h = hash_bytes(b.data(), b.size());
	ev.o.push_back(b.size());
	ev.o.push_back(h >> 16);
	ev.o.push_back(h & 0xffff);
}
static bytes read_real(const str &name) {
	bytes b;
	FILE *f = fopen(name.c_str(), "rb");
	if (!f) return b;
	unsigned char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
	fclose(f);
	return b;
}
static void write_real(const str &name, const bytes &b) {
	FILE *f = fopen(name.c_str(), "wb");
	if (!f) { fprintf(stderr, "cannot write %s\n", name.c_str()); _exit(97); }
	fwrite(b.data(), 1, b.size(), f);
	fclose(f);
}
static bool vmode = false;
static bytes get_file(const str &n) { return vmode ? vfs[n].data : read_real(n); }
static void put_file(const str &n, const bytes &b) { if (vmode) { vfs[n].data = b; vfs[n].exists = true; } else write_real(n, b); }
static bool have_file(const str &n) {
	if (vmode) return vfs.count(n) && vfs[n].exists;
	struct stat st;
	return stat(n.c_str(), &st) == 0;
}

typedef std::vector<str> A;
#define N(i) num(t[i])
#define F(i) ((float)(num(t[i]) / 256.0))

static bool run_cmd(const A &t) {
	const str &c = t[0];
	ints &o = ev.o;
	for (size_t i = 1; i < t.size(); i++) {
		const str &x = t[i];
		if (x.compare(0, 2, "x:") == 0 || x.compare(0, 2, "r:") == 0) { ev.d = hex(x); ev.hasd = true; }
		else if (isdigit(x[0]) || ((x[0] == '-' || x[0] == '+') && x.size() > 1 && isdigit(x[1]))) ev.a.push_back(num(x));
		else ev.sa = x;
	}
	ev.r = 0;
	void *D = ev.hasd ? (ev.d.empty() ? (void *)"" : ev.d.data()) : NULL;
	// exact-size copy so that ASan sees any over-read of caller data
	bytes *exact = NULL;
	unsigned char *EX = NULL;
	if (ev.hasd) { EX = (unsigned char *)malloc(ev.d.size() ? ev.d.size() : 1); memcpy(EX, ev.d.data(), ev.d.size()); D = EX; }
	(void)exact;

	// names
	if (c == "Gen") {
		long long n = N(1);
		if (n < 0 || n > 64) { ilGenImages((ILsizei)n, NULL); }
		else {
			std::vector<ILuint> v(n + 1, 0xFFFFFFF0u);
			ilGenImages((ILsizei)n, v.data());
			for (int i = 0; i < n; i++) { o.push_back(v[i]); note_name(v[i], true); }
		}
	}
	else if (c == "Gen1") { ev.r = ilGenImage(); note_name(ev.r, true); }
	else if (c == "Bind") { note_name(N(1)); ilBindImage((ILuint)N(1)); }
	else if (c == "Del") { std::vector<ILuint> v; for (size_t i = 1; i < t.size(); i++) v.push_back((ILuint)N(i)); ilDeleteImages((ILsizei)v.size(), v.data()); }
	else if (c == "Del1") ilDeleteImage((ILuint)N(1));
	else if (c == "IsImage") ev.r = ilIsImage((ILuint)N(1));
	else if (c == "BindCur") ilBindImage((ILuint)ilGetInteger(IL_CUR_IMAGE));
	else if (c == "CurName") ev.r = ilGetInteger(IL_CUR_IMAGE);
	else if (c == "Clone") { ev.r = ilCloneCurImage(); note_name(ev.r, true); }
	else if (c == "CopyImage") { note_name(N(1)); ev.r = ilCopyImage((ILuint)N(1)); }
	else if (c == "Sub") ev.r = ilCreateSubImage((ILenum)N(1), (ILuint)N(2));
	else if (c == "ActN") ev.r = ilActiveImage((ILuint)N(1));
	else if (c == "ActM") ev.r = ilActiveMipmap((ILuint)N(1));
	else if (c == "ActL") ev.r = ilActiveLayer((ILuint)N(1));
	else if (c == "ActF") ev.r = ilActiveFace((ILuint)N(1));
	else if (c == "RegN") ev.r = ilRegisterNumImages((ILuint)N(1));
	else if (c == "RegM") ev.r = ilRegisterMipNum((ILuint)N(1));
	else if (c == "RegF") ev.r = ilRegisterNumFaces((ILuint)N(1));
	// pixels
	else if (c == "TexImage") ev.r = ilTexImage((ILuint)N(1), (ILuint)N(2), (ILuint)N(3), (ILubyte)N(4), (ILenum)N(5), (ILenum)N(6), D);
	else if (c == "TexSurf") ev.r = ilTexImageSurface((ILuint)N(1), (ILuint)N(2), (ILuint)N(3), (ILubyte)N(4), (ILenum)N(5), (ILenum)N(6), D);
	else if (c == "SetData") ev.r = ilSetData(D);
	else if (c == "SetPixels") ilSetPixels((ILint)N(1), (ILint)N(2), (ILint)N(3), (ILuint)N(4), (ILuint)N(5), (ILuint)N(6), (ILenum)N(7), (ILenum)N(8), D);
	else if (c == "CopyPixels") {
		unsigned long long sz = (unsigned long long)(ILuint)N(4) * (ILuint)N(5) * (ILuint)N(6) * ilGetBppFormat((ILenum)N(7)) * ilGetBpcType((ILenum)N(8));
		if (sz > 100000) sz = 100000;
		unsigned char *b = (unsigned char *)malloc(sz ? sz : 1);
		memset(b, 0xEE, sz);
		ev.r = ilCopyPixels((ILuint)N(1), (ILuint)N(2), (ILuint)N(3), (ILuint)N(4), (ILuint)N(5), (ILuint)N(6), (ILenum)N(7), (ILenum)N(8), b);
		for (size_t i = 0; i < sz && i < max_data; i++) o.push_back(b[i]);
		free(b);
	}
	else if (c == "CopyPixelsNull") ev.r = ilCopyPixels(0, 0, 0, 1, 1, 1, (ILenum)N(1), (ILenum)N(2), NULL);
	else if (c == "ClearColour") ilClearColour(F(1), F(2), F(3), F(4));
	else if (c == "Clear") ev.r = ilClearImage();
	else if (c == "Blit") { note_name(N(1)); ev.r = ilBlit((ILuint)N(1), (ILint)N(2), (ILint)N(3), (ILint)N(4), (ILuint)N(5), (ILuint)N(6), (ILuint)N(7), (ILuint)N(8), (ILuint)N(9), (ILuint)N(10)); }
	else if (c == "Overlay") { note_name(N(1)); ev.r = ilOverlayImage((ILuint)N(1), (ILint)N(2), (ILint)N(3), (ILint)N(4)); }
	else if (c == "Convert") ev.r = ilConvertImage((ILenum)N(1), (ILenum)N(2));
	else if (c == "ConvertPal") ev.r = ilConvertPal((ILenum)N(1));
	else if (c == "RegPal") ilRegisterPal(D, (ILuint)ev.d.size(), (ILenum)N(1));
	else if (c == "RegOrigin") ilRegisterOrigin((ILenum)N(1));
	else if (c == "RegFormat") ilRegisterFormat((ILenum)N(1));
	else if (c == "RegType") ilRegisterType((ILenum)N(1));
	else if (c == "SetAlpha") ev.r = ilSetAlpha(num(t[1]) / 256.0);
	else if (c == "ModAlpha") ilModAlpha(num(t[1]) / 256.0);
	else if (c == "GetAlpha") {
		ILubyte *p = ilGetAlpha((ILenum)N(1));
		ev.r = p != NULL;
		if (p) {
			ILimage *im = ilGetCurImage();
			size_t n = (size_t)im->Width * im->Height * im->Depth * ilGetBpcType((ILenum)N(1));
			long a = alloc_size(p);
			if (a >= 0 && n > (size_t)a) n = a;
			for (size_t i = 0; i < n && i < max_data; i++) o.push_back(p[i]);
			ifree(p);
		}
	}
	else if (c == "ClampNTSC") ev.r = ilClampNTSC();
	else if (c == "DefaultImage") ev.r = ilDefaultImage();
	else if (c == "SetDuration") ev.r = ilSetDuration((ILuint)N(1));
	else if (c == "CurIsNull") ev.r = ilGetCurImage() == NULL;
	// iluCurImage operations
	else if (c == "iluFlip") ev.r = iluFlipImage();
	else if (c == "iluMirror") ev.r = iluMirror();
	else if (c == "iluNegative") ev.r = iluNegative();
	else if (c == "iluInvertAlpha") ev.r = iluInvertAlpha();
	else if (c == "iluSwap") ev.r = iluSwapColours();
	else if (c == "iluCrop") ev.r = iluCrop((ILuint)N(1), (ILuint)N(2), (ILuint)N(3), (ILuint)N(4), (ILuint)N(5), (ILuint)N(6));
	else if (c == "iluEnlargeCanvas") ev.r = iluEnlargeCanvas((ILuint)N(1), (ILuint)N(2), (ILuint)N(3));
	else if (c == "iluEnlargeImage") ev.r = iluEnlargeImage(F(1), F(2), F(3));
	else if (c == "iluScale") ev.r = iluScale((ILuint)N(1), (ILuint)N(2), (ILuint)N(3));
	else if (c == "iluRotate") ev.r = iluRotate((float)N(1));
	else if (c == "iluMips") ev.r = iluBuildMipmaps();
	else if (c == "iluParam") iluImageParameter((ILenum)N(1), (ILenum)N(2));
	else if (c == "iluGetInt") ev.r = iluGetInteger((ILenum)N(1));
	else if (c == "iluColours") ev.r = iluColoursUsed();
	else if (c == "iluCompare") { note_name(N(1)); ev.r = iluCompareImage((ILuint)N(1)); }
	else if (c == "iluReplace") ev.r = iluReplaceColour((ILubyte)N(1), (ILubyte)N(2), (ILubyte)N(3), F(4));
	else if (c == "iluScaleAlpha") ev.r = iluScaleAlpha(F(1));
	else if (c == "iluScaleColours") ev.r = iluScaleColours(F(1), F(2), F(3));
	else if (c == "iluSaturate1") ev.r = iluSaturate1f(F(1));
	else if (c == "iluSaturate4") ev.r = iluSaturate4f(F(1), F(2), F(3), F(4));
	else if (c == "iluPixelize") ev.r = iluPixelize((ILuint)N(1));
	else if (c == "iluContrast") ev.r = iluContrast(F(1));
	else if (c == "iluGamma") ev.r = iluGammaCorrect(F(1));
	else if (c == "iluEqualize") ev.r = iluEqualize();
	else if (c == "iluAlienify") ev.r = iluAlienify();
	else if (c == "iluBlurAvg") ev.r = iluBlurAvg((ILuint)N(1));
	else if (c == "iluBlurGauss") ev.r = iluBlurGaussian((ILuint)N(1));
	else if (c == "iluEmboss") ev.r = iluEmboss();
	else if (c == "iluEdgeE") ev.r = iluEdgeDetectE();
	else if (c == "iluEdgeP") ev.r = iluEdgeDetectP();
	else if (c == "iluEdgeS") ev.r = iluEdgeDetectS();
	else if (c == "iluSharpen") ev.r = iluSharpen(F(1), (ILuint)N(2));
	else if (c == "iluSepia") ev.r = iluSepia();
	else if (c == "iluNoisify") ev.r = iluNoisify(F(1));
	else if (c == "iluWave") ev.r = iluWave((float)N(1));
	else if (c == "iluConv") { ILint m[9]; for (int i = 0; i < 9; i++) m[i] = (ILint)N(1 + i); ev.r = iluConvolution(m, (ILint)N(10), (ILint)N(11)); }
	else if (c == "iluRegionI") { std::vector<ILpointi> p; for (size_t i = 1; i + 1 < t.size(); i += 2) { ILpointi q; q.x = (ILint)N(i); q.y = (ILint)N(i + 1); p.push_back(q); } iluRegioniv(p.empty() ? NULL : p.data(), (ILuint)p.size()); }
	else if (c == "iluRegionF") { std::vector<ILpointf> p; for (size_t i = 1; i + 1 < t.size(); i += 2) { ILpointf q; q.x = F(i); q.y = F(i + 1); p.push_back(q); } iluRegionfv(p.empty() ? NULL : p.data(), (ILuint)p.size()); }
	else if (c == "iluGen") { ev.r = iluGenImage(); note_name(ev.r, true); }
	else if (c == "iluDel") iluDeleteImage((ILuint)N(1));
	else if (c == "iluInfo") {
		ILinfo i; memset(&i, 0, sizeof i);
		iluGetImageInfo(&i);
		ILimage *im = ilGetCurImage();
		o = { (long long)i.Width, (long long)i.Height, (long long)i.Depth, i.Bpp, (long long)i.SizeOfData, (long long)i.Format, (long long)i.Type, (long long)i.Origin,
			(long long)i.PalType, (long long)i.PalSize, (long long)i.NumNext, (long long)i.NumMips, (long long)i.NumLayers, im && i.Data == im->Data, im && i.Palette == im->Pal.Palette };
	}
	else if (c == "iluErrStr") { ILconst_string s = iluErrorString((ILenum)N(1)); ev.sa = s ? s : "(null)"; }
	else if (c == "iluLang") ev.r = iluSetLanguage((ILenum)N(1));
	else if (c == "iluInit") iluInit();
	else if (c == "iluVendor") { ILconst_string s = iluGetString((ILenum)N(1)); ev.sa = s ? s : "(null)"; }
	// state
	else if (c == "GetInt") ev.r = ilGetInteger((ILenum)N(1));
	else if (c == "GetIntv") { ILint v[4] = { -77, -77, -77, -77 }; ilGetIntegerv((ILenum)N(1), v); for (int i = 0; i < 4; i++) o.push_back(v[i]); }
	else if (c == "GetBool") ev.r = ilGetBoolean((ILenum)N(1));
	else if (c == "SetInt") ilSetInteger((ILenum)N(1), (ILint)N(2));
	else if (c == "Enable") ev.r = ilEnable((ILenum)N(1));
	else if (c == "Disable") ev.r = ilDisable((ILenum)N(1));
	else if (c == "IsEnabled") ev.r = ilIsEnabled((ILenum)N(1));
	else if (c == "IsDisabled") ev.r = ilIsDisabled((ILenum)N(1));
	else if (c == "OriginFunc") ev.r = ilOriginFunc((ILenum)N(1));
	else if (c == "FormatFunc") ev.r = ilFormatFunc((ILenum)N(1));
	else if (c == "TypeFunc") ev.r = ilTypeFunc((ILenum)N(1));
	else if (c == "CompressFunc") ev.r = ilCompressFunc((ILenum)N(1));
	else if (c == "Hint") ilHint((ILenum)N(1), (ILenum)N(2));
	else if (c == "KeyColour") ilKeyColour(F(1), F(2), F(3), F(4));
	else if (c == "SetString") { str v = t.size() > 2 ? t[2].substr(2) : ""; ilSetString((ILenum)N(1), t.size() > 2 ? v.c_str() : NULL); ev.sa = t.size() > 2 ? t[2] : "(null)"; }
	else if (c == "GetString") { ILconst_string s = ilGetString((ILenum)N(1)); ev.sa = s ? str("s:") + s : "(null)"; }
	else if (c == "States") {        // every setting, every switch (both ways), every string
		static const ILenum q[] = { IL_ORIGIN_SET, IL_ORIGIN_MODE, IL_FORMAT_SET, IL_FORMAT_MODE, IL_TYPE_SET, IL_TYPE_MODE, IL_FILE_MODE, IL_CONV_PAL,
			IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_COMPRESS_MODE, IL_INTERLACE_MODE, IL_TGA_CREATE_STAMP, IL_JPG_QUALITY, IL_PNG_INTERLACE,
			IL_TGA_RLE, IL_BMP_RLE, IL_SGI_RLE, IL_JPG_SAVE_FORMAT, IL_JPG_PROGRESSIVE, IL_DXTC_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_VTF_COMP,
			IL_QUANTIZATION_MODE, IL_NEU_QUANT_SAMPLE, IL_MAX_QUANT_INDICES, IL_KEEP_DXTC_DATA, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS };
		static const ILenum w[] = { IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND,
			IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS };
		for (ILenum e : q) o.push_back(ilGetInteger(e));
		for (ILenum e : w) o.push_back(2 * ilIsEnabled(e) + ilIsDisabled(e));
	}
	else if (c == "Push") ilPushAttrib((ILuint)N(1));
	else if (c == "Pop") ilPopAttrib();
	else if (c == "GetError") ev.r = ilGetError();
	else if (c == "SetError") ilSetError((ILenum)N(1));
	else if (c == "Drain") { ILenum e; int n = 0; while ((e = ilGetError()) != IL_NO_ERROR && n++ < 200) o.push_back(e); }
	else if (c == "Init") ilInit();
	else if (c == "Shutdown") { ilShutDown(); used_names.clear(); audited.clear(); note_name(0); note_name(1); }
	// ILUT
	else if (c == "utInit") ilutInit();
	else if (c == "utGetInt") ev.r = ilutGetInteger((ILenum)N(1));
	else if (c == "utGetBool") ev.r = ilutGetBoolean((ILenum)N(1));
	else if (c == "utSetInt") ilutSetInteger((ILenum)N(1), (ILint)N(2));
	else if (c == "utEnable") ev.r = ilutEnable((ILenum)N(1));
	else if (c == "utDisable") ev.r = ilutDisable((ILenum)N(1));
	else if (c == "utIsEnabled") ev.r = ilutIsEnabled((ILenum)N(1));
	else if (c == "utIsDisabled") ev.r = ilutIsDisabled((ILenum)N(1));
	else if (c == "utPush") ilutPushAttrib((ILuint)N(1));
	else if (c == "utPop") ilutPopAttrib();
	else if (c == "utRenderer") ev.r = ilutRenderer((ILenum)N(1));
	else if (c == "utString") { ILconst_string s = ilutGetString((ILenum)N(1)); ev.sa = s ? s : "(null)"; }
	// DXTC
	else if (c == "Img2Dxtc") ev.r = ilImageToDxtcData((ILenum)N(1));
	else if (c == "Surf2Dxtc") ev.r = ilSurfaceToDxtcData((ILenum)N(1));
	else if (c == "Dxtc2Img") ev.r = ilDxtcDataToImage();
	else if (c == "Dxtc2Surf") ev.r = ilDxtcDataToSurface();
	else if (c == "GetDXTC") {
		ILuint need = ilGetDXTCData(NULL, 0, (ILenum)N(1));
		ILuint cap = t.size() > 2 ? (ILuint)N(2) : need;
		unsigned char *b = (unsigned char *)malloc(cap ? cap : 1);
		memset(b, 0xEE, cap);
		ev.r = ilGetDXTCData(b, cap, (ILenum)N(1));
		o.push_back(need);
		for (size_t i = 0; i < cap && i < max_data; i++) o.push_back(b[i]);
		free(b);
	}
	else if (c == "CompressDXT") {
		ILuint size = 0;
		ILubyte *b = ilCompressDXT((ILubyte *)D, (ILuint)N(1), (ILuint)N(2), (ILuint)N(3), (ILenum)N(4), &size);
		ev.r = b != NULL;
		if (b) { o.push_back(size); for (size_t i = 0; i < size && i < max_data; i++) o.push_back(b[i]); ifree(b); }
	}
	else if (c == "TexDxtc") ev.r = ilTexImageDxtc((ILint)N(1), (ILint)N(2), (ILint)N(3), (ILenum)N(4), (ILubyte *)D);
	else if (c == "FlipDxtc") ilFlipSurfaceDxtcData();
	else if (c == "InvDxtcAlpha") ev.r = ilInvertSurfaceDxtcDataAlpha();
	else if (c == "DxtcInfo") { ILimage *im = ilGetCurImage(); o = { (long long)im->DxtcFormat, (long long)im->DxtcSize, im->DxtcData ? 1 : 0 }; }
	// files
	else if (c == "Vfs") { vmode = true; use_vfs(); }
	else if (c == "RealFs") { vmode = false; ilResetRead(); ilResetWrite(); }
	else if (c == "Put") { put_file(t[1], ev.d); file_digest(get_file(t[1])); }
	else if (c == "Rm") { if (vmode) vfs.erase(t[1]); else unlink(t[1].c_str()); }
	else if (c == "Trunc") { bytes b = get_file(t[1]); long long n = N(2); if (n < 0) n += b.size(); if (n < 0) n = 0; if ((size_t)n < b.size()) b.resize(n); put_file(t[1], b); file_digest(b); }
	else if (c == "Poke") { bytes b = get_file(t[1]); long long p = N(2); if (p >= 0 && p < (long long)b.size()) b[p] = (unsigned char)N(3); put_file(t[1], b); file_digest(b); }
	else if (c == "Cp") { put_file(t[2], get_file(t[1])); file_digest(get_file(t[2])); ev.sa = t[1] + ">" + t[2]; }
	else if (c == "Prefix") { bytes b = get_file(t[1]); bytes p((size_t)N(2), 0x5A); p.insert(p.end(), b.begin(), b.end()); put_file(t[1], p); file_digest(p); }
	else if (c == "Exists") { ev.r = have_file(t[1]); if (ev.r) file_digest(get_file(t[1])); }
	else if (c == "Cmp") { ev.r = get_file(t[1]) == get_file(t[2]); ev.sa = t[1] + "?" + t[2]; }
	else if (c == "Bytes") { bytes b = get_file(t[1]); o.push_back(b.size()); for (size_t i = 0; i < b.size() && i < max_data; i++) o.push_back(b[i]); }
	else if (c == "Import") { bytes b = read_real(t[2]); put_file(t[1], b); ev.sa = t[1]; file_digest(b); }
	else if (c == "Save") { ev.r = ilSave((ILenum)N(1), t[2].c_str()); ev.o.push_back(have_file(t[2])); file_digest(get_file(t[2])); }
	else if (c == "SaveImage") { ev.r = ilSaveImage(t[1].c_str()); ev.o.push_back(have_file(t[1])); file_digest(get_file(t[1])); }
	else if (c == "SaveF") {      // SaveF type name startpos
		long long start = t.size() > 3 ? N(3) : 0;
		long endpos = -1;
		if (vmode) {
			bytes pre((size_t)start, 0x5A);
			VHandle *h = (VHandle *)v_openw(t[2].c_str());
			n_open--;
			vfs[t[2]].data = pre; h->pos = start;
			ev.r = ilSaveF((ILenum)N(1), (ILHANDLE)h);
			endpos = h->pos;
			if (!h->open) n_bad++;            // the library must not close a handle it did not open
			else h->open = false;
		} else {
			FILE *f = fopen(t[2].c_str(), "wb+");
			for (int i = 0; i < start; i++) fputc(0x5A, f);
			ev.r = ilSaveF((ILenum)N(1), (ILHANDLE)f);
			endpos = ftell(f);
			fclose(f);
		}
		bytes b = get_file(t[2]);
		bool prefix_ok = (long long)b.size() >= start;
		for (int i = 0; i < start && prefix_ok; i++) prefix_ok = b[i] == 0x5A;
		if (prefix_ok) b.erase(b.begin(), b.begin() + start);
		put_file(t[2], b);
		o.push_back(prefix_ok);
		file_digest(b);
		o.push_back(endpos - start);
	}
	else if (c == "SaveLQ") ev.r = ilSaveL((ILenum)N(1), NULL, 0);
	else if (c == "SaveL") {      // SaveL type name cap   (cap -1: exactly what the query says; cap -2: query+16)
		long long cap = N(3);
		if (cap < 0) { long long q = ilSaveL((ILenum)N(1), NULL, 0); cap = cap == -1 ? q : q + 16; if (q == 0) cap = 0; }
		ev.o.push_back(cap);
		if (cap > 0 && cap < (16 << 20)) {
			unsigned char *b = (unsigned char *)malloc(cap);
			memset(b, 0xEE, cap);
			ILuint n = ilSaveL((ILenum)N(1), b, (ILuint)cap);
			ev.r = n;
			bytes v;
			if (n > 0 && n <= cap) v.assign(b, b + n);
			put_file(t[2], v);
			file_digest(v);
			free(b);
		} else { ev.r = -1; ev.o.push_back(0); ev.o.push_back(0); ev.o.push_back(0); }
	}
	else if (c == "Load") ev.r = ilLoad((ILenum)N(1), t[2].c_str());
	else if (c == "LoadImage") ev.r = ilLoadImage(t[1].c_str());
	else if (c == "LoadF" || c == "DetF" || c == "IsValidF" || c == "LoadDataF") {   // type name start; LoadDataF: name start w h d bpp
		const bool data = c == "LoadDataF";
		long long start = N(data ? 2 : 3);
		long pos0 = start, endpos = -1;
		bytes b = get_file(t[data ? 1 : 2]);
		bytes p((size_t)start, 0x5A);
		p.insert(p.end(), b.begin(), b.end());
		str tmp = "__lf_tmp";
		put_file(tmp, p);
		ILHANDLE h; FILE *f = NULL; VHandle *vh = NULL;
		if (vmode) { vh = (VHandle *)v_openr(tmp.c_str()); if (vh) { n_open--; vh->pos = start; } h = (ILHANDLE)vh; }
		else { f = fopen(tmp.c_str(), "rb"); fseek(f, start, SEEK_SET); h = (ILHANDLE)f; }
		if (data) ev.r = ilLoadDataF(h, (ILuint)N(3), (ILuint)N(4), (ILuint)N(5), (ILubyte)N(6));
		else if (c == "LoadF") ev.r = ilLoadF((ILenum)N(1), h);
		else if (c == "DetF") ev.r = ilDetermineTypeF(h);
		else ev.r = ilIsValidF((ILenum)N(1), h);
		if (vmode) { if (vh) { endpos = vh->pos; if (!vh->open) n_bad++; else vh->open = false; } }
		else { endpos = ftell(f); fclose(f); }
		if (vmode) vfs.erase(tmp); else unlink(tmp.c_str());
		o.push_back(endpos - pos0);
		o.push_back(b.size());
	}
	else if (c == "LoadL" || c == "DetL" || c == "IsValidL") {   // type name
		bytes b = get_file(t[2]);
		unsigned char *x = (unsigned char *)malloc(b.size() ? b.size() : 1);
		memcpy(x, b.data(), b.size());
		if (c == "LoadL") ev.r = ilLoadL((ILenum)N(1), x, (ILuint)b.size());
		else if (c == "DetL") ev.r = ilDetermineTypeL(x, (ILuint)b.size());
		else ev.r = ilIsValidL((ILenum)N(1), x, (ILuint)b.size());
		o.push_back(memcmp(x, b.data(), b.size()) == 0);       // the caller's lump is not modified
		o.push_back(b.size());
		free(x);
	}
	else if (c == "Det") ev.r = ilDetermineType(t[1].c_str());
	else if (c == "IsValid") ev.r = ilIsValid((ILenum)N(1), t[2].c_str());
	else if (c == "TypeFromExt") ev.r = ilTypeFromExt(t.size() > 1 ? t[1].c_str() : "");
	else if (c == "LoadPal") ev.r = ilLoadPal(t[1].c_str());
	else if (c == "SavePal") { ev.r = ilSavePal(t[1].c_str()); ev.o.push_back(have_file(t[1])); file_digest(get_file(t[1])); }
	else if (c == "LoadData") ev.r = ilLoadData(t[1].c_str(), (ILuint)N(2), (ILuint)N(3), (ILuint)N(4), (ILubyte)N(5));
	else if (c == "LoadDataL") { bytes b = get_file(t[1]); unsigned char *x = (unsigned char *)malloc(b.size() + 1); memcpy(x, b.data(), b.size()); ev.r = ilLoadDataL(x, (ILuint)b.size(), (ILuint)N(2), (ILuint)N(3), (ILuint)N(4), (ILubyte)N(5)); free(x); }
	else if (c == "SaveData") { ev.r = ilSaveData(t[1].c_str()); ev.o.push_back(have_file(t[1])); file_digest(get_file(t[1])); }
	else if (c == "LumpPos") ev.r = ilGetLumpPos();
	else if (c == "RegLoad") ev.r = ilRegisterLoad(t[1].c_str(), loaders[N(2)]);
	else if (c == "RegSave") ev.r = ilRegisterSave(t[1].c_str(), savers[N(2)]);
	else if (c == "RemLoad") ev.r = ilRemoveLoad(t[1].c_str());
	else if (c == "RemSave") ev.r = ilRemoveSave(t[1].c_str());
	else if (c == "ProcRet") proc_ret[N(1)] = N(2);
	else if (c == "ProcLog") { o = proc_log; proc_log.clear(); }
	// driver control
	else if (c == "FailAlloc") { alloc_seen = 0; alloc_failed = 0; alloc_fail_at = N(1); alloc_fail_sticky = t.size() > 2 && N(2); }
	else if (c == "AllocInfo") { o = { alloc_seen, alloc_failed }; alloc_fail_at = 0; }
	else if (c == "FailIo") { io_seen = 0; io_failed = 0; io_fail_at = N(1); io_fail_kind = t.size() > 2 ? (int)N(2) : 0; }
	else if (c == "IoInfo") { o = { io_seen, io_failed }; io_fail_at = 0; }
	else if (c == "FailOpen") open_fail = N(1);
	else if (c == "Handles") { long openh = 0; for (auto h : handles) if (h->open) openh++; o = { n_open, n_close, n_bad, openh }; }
	else if (c == "Live") ev.r = (long long)live->size();
	else if (c == "MaxData") max_data = (size_t)N(1);
	else if (c == "Audit") {}
	else if (c == "Note") {}
	else return false;
	free(EX);
	return true;
}

static int outfd;
static void flush_event() {
	out += "\n";
	size_t off = 0;
	while (off < out.size()) { ssize_t w = write(outfd, out.data() + off, out.size() - off); if (w <= 0) _exit(98); off += w; }
	out.clear();
}

static void run_script(const Script &s) {
	live = new std::unordered_map<const void*, size_t>();
	ilSetMemory(drv_alloc, drv_free);
	note_name(0);
	note_name(1);
	bool inited = false;
	for (auto &l : s.lines) {
		A t = split(l);
		if (t.empty()) continue;
		if (t[0] == "obs") {
			o_err = o_img = o_tree = o_live = o_io = o_nav = o_nodata = o_hash = o_all = false;
			for (char c : t.size() > 1 ? t[1] : str()) switch (c) {
				case 'e': o_err = true; break; case 'i': o_img = true; break; case 't': o_tree = true; break;
				case 'l': o_live = true; break; case 'o': o_io = true; break; case 'n': o_nav = true; break; case 'x': o_nodata = true; break;
				case 'h': o_hash = true; break; case 'a': o_all = true; break; }
			continue;
		}
		if (t[0] == "noinit") { inited = true; continue; }
		if (!inited) {
			ilInit(); iluInit(); ilutInit();
			while (ilGetError() != IL_NO_ERROR);
			inited = true;
			out = "{\"op\":\"Start\",\"a\":[],\"r\":0,\"o\":[],\"d\":[],\"nod\":1,\"sa\":\"\",\"er\":[],\"all\":";
			Jaudit();
			J(",\"cn\":[%u]}", ilGetCurName());
			flush_event();
		}
		for (auto &x : t) if (x[0] == '$') { size_t k = (size_t)num(x.substr(1)); x = std::to_string(k >= 1 && k <= gen_names.size() ? gen_names[k - 1] : 4000 + (long long)k); }
		ev = Ev();
		ev.op = t[0];
		ev.hasd = false;
		// announce the call, so that a crash is attributed to it
		out = "@" + l.substr(0, 200);
		flush_event();
		if (!run_cmd(t)) { fprintf(stderr, "ildrv: unknown command: %s\n", l.c_str()); _exit(99); }
		if (t[0] == "FailAlloc") { out = "{\"op\":\"FailAlloc\",\"a\":["; out += t[1]; out += "],\"r\":0,\"o\":[],\"d\":[],\"nod\":1,\"sa\":\"\",\"er\":[]}"; flush_event(); continue; }
		long keep_fail = alloc_fail_at;
		alloc_fail_at = 0;                     // observation itself must not fail
		out.clear();
		J("{\"op\":\"%s\",", ev.op.c_str());
		Jints("a", ev.a);
		J(",\"r\":%lld,", s32(ev.r));
		Jints("o", ev.o);
		out += ",";
		if (ev.d.size() <= max_data) { Jbytes("d", ev.d.data(), ev.d.size()); J(",\"nod\":%d", ev.hasd ? 0 : 1); }
		else { unsigned hv = hash_bytes(ev.d.data(), ev.d.size()); J("\"d\":[-1,%u,%u],\"nod\":%d", hv >> 16, hv & 0xffff, (int)ev.d.size()); }
		out += ",\"sa\":" + jstr(ev.sa);
		if (o_err) {
			ints e;
			ILenum x;
			while ((x = ilGetError()) != IL_NO_ERROR && e.size() < 100) e.push_back(x);
			out += ",";
			Jints("er", e);
		}
		if (o_nav) {
			ints n = { (long long)ilGetCurName(), ilGetInteger(IL_ACTIVE_IMAGE), ilGetInteger(IL_NUM_IMAGES), ilGetInteger(IL_NUM_MIPMAPS), ilGetInteger(IL_NUM_LAYERS), ilGetInteger(IL_NUM_FACES) };
			while (ilGetError() != IL_NO_ERROR);
			out += ",";
			Jints("nav", n);
		}
		if (o_img && !o_all && !o_tree && ev.op != "Audit") {
			ILimage *im = ilGetCurImage();
			out += ",\"im\":[";
			if (im) { out += "{"; Jimage_body(im, !o_nodata); out += "}"; }
			out += "]";
			J(",\"cn\":[%u]", ilGetCurName());
		}
		if (o_hash) {                      // digest of the current image, for large images
			ILimage *im = ilGetCurImage();
			unsigned h = 0, p = 0;
			long n = 0, m = 0, ly = 0, fc = 0;
			if (im) {
				h = hash_bytes(im->Data, data_len(im));
				p = im->Pal.Palette ? hash_bytes(im->Pal.Palette, im->Pal.PalSize) : 0;
				n = ilGetInteger(IL_NUM_IMAGES); m = ilGetInteger(IL_NUM_MIPMAPS); ly = ilGetInteger(IL_NUM_LAYERS); fc = ilGetInteger(IL_NUM_FACES);
				while (ilGetError() != IL_NO_ERROR);
				// digests of sub-images too
				ILimage *q = im->Next; int g = 0;
				for (; q && g < 64; q = q->Next, g++) h = h * 31 + hash_bytes(q->Data, data_len(q)) + q->Width + 7 * q->Height;
				for (q = im->Mipmaps, g = 0; q && g < 64; q = q->Mipmaps, g++) h = h * 31 + hash_bytes(q->Data, data_len(q)) + q->Width + 7 * q->Height;
				for (q = im->Faces, g = 0; q && g < 64; q = q->Faces, g++) h = h * 31 + hash_bytes(q->Data, data_len(q)) + q->Width + 7 * q->Height;
				for (q = im->Layers, g = 0; q && g < 64; q = q->Layers, g++) h = h * 31 + hash_bytes(q->Data, data_len(q)) + q->Width + 7 * q->Height;
			}
			J(",\"hs\":[%u,%u,%u,%u,%ld,%ld,%ld,%ld]", h >> 16, h & 0xffff, p >> 16, p & 0xffff, n, m, ly, fc);
		}
		if ((o_all || ev.op == "Audit") && ilGetCurImage() != NULL) {
			out += ",\"all\":";
			Jaudit();
			J(",\"cn\":[%u]", ilGetCurName());
		}
		else if (o_tree) {
			out += ",\"t\":";
			Jbase();
			J(",\"cn\":[%u]", ilGetCurName());
		}
		if (o_live) J(",\"live\":%zu", live->size());
		if (o_io) { long openh = 0; for (auto h : handles) if (h->open) openh++; J(",\"io\":[%ld,%ld,%ld,%ld]", n_open, n_close, n_bad, openh); }
		out += "}";
		flush_event();
		alloc_fail_at = keep_fail;
	}
	ilSetMemory(NULL, NULL);
	// skip atexit handlers: the blocks belong to the tracked allocator
	_exit(0);
}

int main(int argc, char **argv) {
	if (argc < 3) return 2;
	int first = argc > 3 ? atoi(argv[3]) : 0, step = argc > 4 ? atoi(argv[4]) : 1;
	std::vector<Script> scripts;
	FILE *f = fopen(argv[1], "r");
	if (!f) { perror(argv[1]); return 2; }
	static char line[1 << 20];
	while (fgets(line, sizeof line, f)) {
		size_t n = strlen(line);
		while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
		if (line[0] == '#' && line[1] == ' ') { Script s; s.id = line + 2; scripts.push_back(s); }
		else if (!scripts.empty() && n && line[0] != '#') scripts.back().lines.push_back(line);
	}
	fclose(f);
	FILE *o = fopen(argv[2], "w");
	if (!o) { perror(argv[2]); return 2; }
	long timeout_s = getenv("ILDRV_TIMEOUT") ? atol(getenv("ILDRV_TIMEOUT")) : 20;
	char tmpl[] = "/tmp/ildrv.XXXXXX";
	if (!mkdtemp(tmpl) || chdir(tmpl)) { perror("mkdtemp"); return 2; }
	signal(SIGPIPE, SIG_IGN);
	int rc = 0;
	for (size_t i = first; i < scripts.size(); i += step) {
		int p[2];
		if (pipe(p)) return 2;
		fflush(o);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 2; }
		if (pid == 0) {
			close(p[0]);
			outfd = p[1];
			struct rlimit rl = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = rl.rlim_max = 64u << 20;
			setrlimit(RLIMIT_FSIZE, &rl);
			rl.rlim_cur = rl.rlim_max = timeout_s;
			setrlimit(RLIMIT_CPU, &rl);
			alarm(timeout_s * 6);
			int dn = open("/dev/null", O_WRONLY);
			if (!getenv("ILDRV_STDERR")) { dup2(dn, 2); }
			dup2(dn, 1);
			run_script(scripts[i]);
		}
		close(p[1]);
		str buf;
		char b[65536];
		ssize_t n;
		while ((n = read(p[0], b, sizeof b)) > 0) { buf.append(b, n); if (buf.size() > (64u << 20)) { kill(pid, SIGKILL); break; } }
		close(p[0]);
		int st;
		waitpid(pid, &st, 0);
		if (DIR *d = opendir(".")) {           // what the script left in the scratch directory
			while (dirent *e = readdir(d)) unlinkat(dirfd(d), e->d_name, 0);
			closedir(d);
		}
		str evs, last;
		size_t a = 0;
		int cnt = 0;
		while (a < buf.size()) {
			size_t e = buf.find('\n', a);
			if (e == str::npos) e = buf.size();
			str l = buf.substr(a, e - a);
			a = e + 1;
			if (l.empty()) continue;
			if (l[0] == '@') { last = l.substr(1); continue; }
			if (l[l.size() - 1] != '}') continue;
			if (cnt++) evs += ",";
			evs += l;
			last.clear();
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "ildrv: bad script %s\n", scripts[i].id.c_str()); rc = 3; }
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			char e[128];
			int why = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
			snprintf(e, sizeof e, "%s{\"op\":\"Crash\",\"a\":[%d],\"r\":0,\"o\":[],\"d\":[],\"er\":[],\"sa\":", cnt ? "," : "", why);
			evs += e + jstr(last) + "}";
		}
		fprintf(o, "{\"id\":%s,\"t\":[%s]}\n", jstr(scripts[i].id).c_str(), evs.c_str());
	}
	fclose(o);
	if (chdir("/")) {}
	if (DIR *d = opendir(tmpl)) {          // flat scratch directory, made above
		while (dirent *e = readdir(d)) unlinkat(dirfd(d), e->d_name, 0);
		closedir(d);
		rmdir(tmpl);
	}
	return rc;
}
