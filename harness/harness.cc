/* Conformance harness: executes cases against libsub's public API and reports
 * what was observed.  One JSON object per line on stdin (the case), one per
 * line on stdout (the observation).  Only public API is used; stdout of the
 * library itself (warnings) goes to /dev/null.
 */
#include "collect.h"
#include "colour.h"
#include "effect.h"
#include "exceptions.h"
#include "font_size.h"
#include "iso6937.h"
#include "reader_factory.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_tables.h"
#include "stl_binary_writer.h"
#include "stl_text_reader.h"
#include "stl_util.h"
#include "sub_time.h"
#include "subrip_reader.h"
#include "subtitle.h"
#include "util.h"
#include "vertical_reference.h"
#include "web_vtt_reader.h"
#include <boost/json.hpp>
#include <boost/filesystem.hpp>
#include <atomic>
#include <clocale>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <list>
#include <new>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace js = boost::json;
using std::string;
using std::vector;
using boost::optional;

static thread_local string scratch;
static FILE* out_file;
static int out_fd;

/* ---- helpers ---------------------------------------------------------- */

static string
unhex(string const& h)
{
	string o;
	auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
	for (size_t i = 0; i + 1 < h.size(); i += 2) {
		o += char(v(h[i]) * 16 + v(h[i + 1]));
	}
	return o;
}

static string
hex(string const& s)
{
	static char const* d = "0123456789abcdef";
	string o;
	for (unsigned char c: s) {
		o += d[c >> 4];
		o += d[c & 15];
	}
	return o;
}

static string str(js::object const& o, char const* k) { return string(o.at(k).as_string().c_str(), o.at(k).as_string().size()); }
static string bytes(js::object const& o, char const* k) { return unhex(str(o, k)); }
static int num(js::object const& o, char const* k, int def = 0) { auto i = o.if_contains(k); return i ? int(i->as_int64()) : def; }

static int const BAD = -777777;
static int const NOT_FINITE = -888888;

/** Express v as an integer number of units 1/u, or BAD if it isn't close to one */
static int
units(double v, int u)
{
	double const x = v * u;
	if (!std::isfinite(v)) {
		return NOT_FINITE;
	}
	if (!(std::fabs(x) < 1e9)) {
		return BAD;
	}
	double const r = std::rint(x);
	return std::fabs(x - r) < 0.1 ? int(r) : BAD;
}

static int
open_fds()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	while (readdir(d)) {
		++n;
	}
	closedir(d);
	return n;
}

/* ---- observations ----------------------------------------------------- */

static js::array
obs(sub::Time const& t)
{
	/* seconds, frames, rate numerator, rate denominator (0/0 if there is no rate) */
	std::ostringstream s;
	s.imbue(std::locale::classic());
	s << t;
	string const p = s.str();
	long f = 0, n = 0, d = 0;
	size_t at = p.find(" @ ");
	string const head = p.substr(0, at);
	size_t colon = head.rfind(':');
	f = atol(head.c_str() + colon + 1);
	if (at != string::npos) {
		sscanf(p.c_str() + at, " @ %ld/%ld", &n, &d);
	}
	return js::array{t.hours() * 3600 + t.minutes() * 60 + t.seconds(), f, n, d};
}

static js::array
obs(optional<sub::Time> const& t)
{
	return t ? js::array{obs(*t)} : js::array{};
}

static js::array
obs(sub::Colour const& c)
{
	return js::array{units(c.r, 255), units(c.g, 255), units(c.b, 255)};
}

static string
effect_name(optional<sub::Effect> const& e)
{
	return e ? (*e == sub::BORDER ? "border" : "shadow") : "";
}

struct Units
{
	int v;
	int h;
};

static js::array
obs(sub::FontSize const& f, Units u)
{
	js::array a{"?", 0};
	if (f.points()) {
		a[0] = "pt";
		a[1] = *f.points();
		if (f.proportional()) {
			a[0] = "both";
		}
	} else if (f.proportional()) {
		a[0] = "pr";
		a[1] = units(*f.proportional(), u.v);
	} else {
		a[0] = "";
	}
	return a;
}

static js::array
obs(sub::VerticalPosition const& v, Units u)
{
	/* reference (-1 if none), line, lines, proportional */
	js::array a;
	a.push_back(v.reference ? int(*v.reference) : -1);
	a.push_back(v.line ? js::array{*v.line} : js::array{});
	a.push_back(v.lines ? js::array{*v.lines} : js::array{});
	a.push_back(v.proportional ? js::array{units(*v.proportional, u.v)} : js::array{});
	return a;
}

static js::array
obs(sub::HorizontalPosition const& h, Units u)
{
	return js::array{int(h.reference), units(h.proportional, u.h)};
}

template <class B>
static js::object
obs_block(B const& r, Units u)
{
	js::object o;
	o["t"] = hex(r.text);
	o["s"] = js::array{int(r.bold), int(r.italic), int(r.underline)};
	o["c"] = obs(r.colour);
	o["e"] = effect_name(r.effect);
	o["ec"] = r.effect_colour ? js::array{obs(*r.effect_colour)} : js::array{};
	o["fn"] = r.font ? js::array{hex(*r.font)} : js::array{};
	o["fs"] = obs(r.font_size, u);
	return o;
}

static js::object
obs(sub::RawSubtitle const& r, Units u)
{
	auto o = obs_block(r, u);
	o["h"] = obs(r.horizontal_position, u);
	o["v"] = obs(r.vertical_position, u);
	o["f"] = obs(r.from);
	o["o"] = obs(r.to);
	o["fu"] = obs(r.fade_up);
	o["fd"] = obs(r.fade_down);
	return o;
}

static js::array
obs(vector<sub::RawSubtitle> const& s, Units u)
{
	js::array a;
	for (auto const& i: s) {
		a.push_back(obs(i, u));
	}
	return a;
}

static js::object
obs(sub::Subtitle const& s, Units u)
{
	js::object o;
	o["f"] = obs(s.from);
	o["o"] = obs(s.to);
	o["fu"] = obs(s.fade_up);
	o["fd"] = obs(s.fade_down);
	js::array lines;
	for (auto const& l: s.lines) {
		js::object ol;
		ol["h"] = obs(l.horizontal_position, u);
		ol["v"] = obs(l.vertical_position, u);
		js::array blocks;
		for (auto const& b: l.blocks) {
			blocks.push_back(obs_block(b, u));
		}
		ol["b"] = blocks;
		lines.push_back(ol);
	}
	o["l"] = lines;
	return o;
}

template <class C>
static js::array
obs_subs(C const& s, Units u)
{
	js::array a;
	for (auto const& i: s) {
		a.push_back(obs(i, u));
	}
	return a;
}

static bool exact_context = false;

static js::array
obs_context(std::list<string> const& c)
{
	js::array a;
	for (auto i: c) {
		while (!exact_context && !i.empty() && (i.back() == '\n' || i.back() == '\r')) {
			i.pop_back();
		}
		a.push_back(js::string(hex(i)));
	}
	return a;
}

/** Run f; put its outcome in o: "err" is "" or the name of the exception type */
template <class F>
static void
guarded(js::object& o, F f)
{
	o["err"] = "";
	try {
		f();
	} catch (sub::SubripError& e) {
		o["err"] = "SubripError";
		o["line"] = e.line_number();
		o["msg"] = hex(e.what());
		o["ctx"] = obs_context(e.context());
	} catch (sub::WebVTTHeaderError& e) {
		o["err"] = "WebVTTHeaderError";
		o["msg"] = hex(e.what());
		o["ctx"] = obs_context(e.context());
	} catch (sub::WebVTTError& e) {
		o["err"] = "WebVTTError";
		o["msg"] = hex(e.what());
		o["ctx"] = obs_context(e.context());
	} catch (sub::SSAError& e) {
		o["err"] = "SSAError";
	} catch (sub::STLError& e) {
		o["err"] = "STLError";
	} catch (sub::XMLError& e) {
		o["err"] = "XMLError";
	} catch (sub::MXFError& e) {
		o["err"] = "MXFError";
	} catch (sub::UnknownFrameRateError& e) {
		o["err"] = "UnknownFrameRateError";
	} catch (sub::ProgrammingError& e) {
		o["err"] = "ProgrammingError";
	} catch (std::exception& e) {
		o["err"] = "other";
		o["msg"] = hex(e.what());
	} catch (...) {
		o["err"] = "unknown";
	}
}

/* The enumerators in the order of the specification's tables (spec/STLTables.tla) */
static sub::Language const languages[] = {
	sub::LANGUAGE_UNKNOWN,
	sub::LANGUAGE_ALBANIAN,
	sub::LANGUAGE_BRETON,
	sub::LANGUAGE_CATALAN,
	sub::LANGUAGE_CROATIAN,
	sub::LANGUAGE_WELSH,
	sub::LANGUAGE_CZECH,
	sub::LANGUAGE_DANISH,
	sub::LANGUAGE_GERMAN,
	sub::LANGUAGE_ENGLISH,
	sub::LANGUAGE_SPANISH,
	sub::LANGUAGE_ESPERANTO,
	sub::LANGUAGE_ESTONIAN,
	sub::LANGUAGE_BASQUE,
	sub::LANGUAGE_FAROESE,
	sub::LANGUAGE_FRENCH,
	sub::LANGUAGE_FRISIAN,
	sub::LANGUAGE_IRISH,
	sub::LANGUAGE_GAELIC,
	sub::LANGUAGE_GALACIAN,
	sub::LANGUAGE_ICELANDIC,
	sub::LANGUAGE_ITALIAN,
	sub::LANGUAGE_LAPPISH,
	sub::LANGUAGE_LATIN,
	sub::LANGUAGE_LATVIAN,
	sub::LANGUAGE_LUXEMBORGIAN,
	sub::LANGUAGE_LITHUANIAN,
	sub::LANGUAGE_HUNGARIAN,
	sub::LANGUAGE_MALTESE,
	sub::LANGUAGE_DUTCH,
	sub::LANGUAGE_NORWEGIAN,
	sub::LANGUAGE_OCCITAN,
	sub::LANGUAGE_POLISH,
	sub::LANGUAGE_PORTUGESE,
	sub::LANGUAGE_ROMANIAN,
	sub::LANGUAGE_ROMANSH,
	sub::LANGUAGE_SERBIAN,
	sub::LANGUAGE_SLOVAK,
	sub::LANGUAGE_SLOVENIAN,
	sub::LANGUAGE_FINNISH,
	sub::LANGUAGE_SWEDISH,
	sub::LANGUAGE_TURKISH,
	sub::LANGUAGE_FLEMISH,
	sub::LANGUAGE_WALLON,
	sub::LANGUAGE_AMHARIC,
	sub::LANGUAGE_ARABIC,
	sub::LANGUAGE_ARMENIAN,
	sub::LANGUAGE_ASSAMESE,
	sub::LANGUAGE_AZERBAIJANI,
	sub::LANGUAGE_BAMBORA,
	sub::LANGUAGE_BIELORUSSIAN,
	sub::LANGUAGE_BENGALI,
	sub::LANGUAGE_BULGARIAN,
	sub::LANGUAGE_BURMESE,
	sub::LANGUAGE_CHINESE,
	sub::LANGUAGE_CHURASH,
	sub::LANGUAGE_DARI,
	sub::LANGUAGE_FULANI,
	sub::LANGUAGE_GEORGIAN,
	sub::LANGUAGE_GREEK,
	sub::LANGUAGE_GUJURATI,
	sub::LANGUAGE_GURANI,
	sub::LANGUAGE_HAUSA,
	sub::LANGUAGE_HEBREW,
	sub::LANGUAGE_HINDI,
	sub::LANGUAGE_INDONESIAN,
	sub::LANGUAGE_JAPANESE,
	sub::LANGUAGE_KANNADA,
	sub::LANGUAGE_KAZAKH,
	sub::LANGUAGE_KHMER,
	sub::LANGUAGE_KOREAN,
	sub::LANGUAGE_LAOTIAN,
	sub::LANGUAGE_MACEDONIAN,
	sub::LANGUAGE_MALAGASAY,
	sub::LANGUAGE_MALAYSIAN,
	sub::LANGUAGE_MOLDAVIAN,
	sub::LANGUAGE_MARATHI,
	sub::LANGUAGE_NDEBELE,
	sub::LANGUAGE_NEPALI,
	sub::LANGUAGE_ORIYA,
	sub::LANGUAGE_PAPAMIENTO,
	sub::LANGUAGE_PERSIAN,
	sub::LANGUAGE_PUNJABI,
	sub::LANGUAGE_PUSHTU,
	sub::LANGUAGE_QUECHUA,
	sub::LANGUAGE_RUSSIAN,
	sub::LANGUAGE_RUTHENIAN,
	sub::LANGUAGE_SERBO_CROAT,
	sub::LANGUAGE_SHONA,
	sub::LANGUAGE_SINHALESE,
	sub::LANGUAGE_SOMALI,
	sub::LANGUAGE_SRANAN_TONGO,
	sub::LANGUAGE_SWAHILI,
	sub::LANGUAGE_TADZHIK,
	sub::LANGUAGE_TAMIL,
	sub::LANGUAGE_TATAR,
	sub::LANGUAGE_TELUGU,
	sub::LANGUAGE_THAI,
	sub::LANGUAGE_UKRANIAN,
	sub::LANGUAGE_URDU,
	sub::LANGUAGE_UZBEK,
	sub::LANGUAGE_VIETNAMESE,
	sub::LANGUAGE_ZULU
};
static sub::DisplayStandard const standards[] = { sub::DISPLAY_STANDARD_UNDEFINED, sub::DISPLAY_STANDARD_OPEN_SUBTITLING, sub::DISPLAY_STANDARD_LEVEL_1_TELETEXT, sub::DISPLAY_STANDARD_LEVEL_2_TELETEXT };
static sub::LanguageGroup const language_groups[] = {
	sub::LANGUAGE_GROUP_LATIN, sub::LANGUAGE_GROUP_LATIN_CYRILLIC, sub::LANGUAGE_GROUP_LATIN_ARABIC,
	sub::LANGUAGE_GROUP_LATIN_GREEK, sub::LANGUAGE_GROUP_LATIN_HEBREW, sub::LANGUAGE_GROUP_UTF8
};
static sub::TimecodeStatus const timecode_statuses[] = { sub::TIMECODE_STATUS_NOT_INTENDED_FOR_USE, sub::TIMECODE_STATUS_INTENDED_FOR_USE };
static sub::CumulativeStatus const cumulative_statuses[] = {
	sub::CUMULATIVE_STATUS_NOT_CUMULATIVE, sub::CUMULATIVE_STATUS_FIRST, sub::CUMULATIVE_STATUS_INTERMEDIATE, sub::CUMULATIVE_STATUS_LAST
};
static sub::Justification const justifications[] = { sub::JUSTIFICATION_NONE, sub::JUSTIFICATION_LEFT, sub::JUSTIFICATION_CENTRE, sub::JUSTIFICATION_RIGHT };
static sub::Comment const comments[] = { sub::COMMENT_NO, sub::COMMENT_YES };

template <class E, size_t N>
static int
index_of(E const (&a)[N], E e)
{
	for (size_t i = 0; i < N; ++i) {
		if (a[i] == e) {
			return int(i);
		}
	}
	return -2;
}

/* ---- construction of values from cases --------------------------------- */

static sub::Time
mk_time(js::value const& v)
{
	auto const& a = v.as_array();
	int const s = int(a[0].as_int64()), f = int(a[1].as_int64()), n = int(a[2].as_int64()), d = int(a[3].as_int64());
	if (n == 0) {
		return sub::Time::from_hmsf(0, 0, s, f);
	}
	return sub::Time::from_hmsf(0, 0, s, f, sub::Rational(n, d));
}

static optional<sub::Time>
mk_opt_time(js::value const& v)
{
	if (v.as_array().empty()) {
		return optional<sub::Time>();
	}
	return mk_time(v.as_array()[0]);
}

static sub::Colour
mk_colour(js::value const& v)
{
	auto const& a = v.as_array();
	return sub::Colour(a[0].as_int64() / 255.0f, a[1].as_int64() / 255.0f, a[2].as_int64() / 255.0f);
}

static sub::FontSize
mk_fs(js::value const& v, Units u)
{
	auto const& a = v.as_array();
	string const k(a[0].as_string().c_str());
	sub::FontSize f;
	if (k == "pt") {
		f.set_points(int(a[1].as_int64()));
	} else if (k == "pr") {
		f.set_proportional(float(a[1].as_int64()) / u.v);
	}
	return f;
}

static sub::VerticalPosition
mk_v(js::value const& v, Units u)
{
	auto const& a = v.as_array();
	sub::VerticalPosition p;
	if (a[0].as_int64() >= 0) {
		p.reference = sub::VerticalReference(a[0].as_int64());
	}
	if (!a[1].as_array().empty()) {
		p.line = int(a[1].as_array()[0].as_int64());
	}
	if (!a[2].as_array().empty()) {
		p.lines = int(a[2].as_array()[0].as_int64());
	}
	if (!a[3].as_array().empty()) {
		p.proportional = float(a[3].as_array()[0].as_int64()) / u.v;
	}
	return p;
}

static sub::HorizontalPosition
mk_h(js::value const& v, Units u)
{
	auto const& a = v.as_array();
	sub::HorizontalPosition p;
	p.reference = sub::HorizontalReference(a[0].as_int64());
	p.proportional = float(a[1].as_int64()) / u.h;
	return p;
}

template <class B>
static void
mk_block(B& r, js::object const& o, Units u)
{
	r.text = bytes(o, "t");
	auto const& s = o.at("s").as_array();
	r.bold = s[0].as_int64();
	r.italic = s[1].as_int64();
	r.underline = s[2].as_int64();
	r.colour = mk_colour(o.at("c"));
	string const e = str(o, "e");
	if (e == "border") {
		r.effect = sub::BORDER;
	} else if (e == "shadow") {
		r.effect = sub::SHADOW;
	}
	auto const& ec = o.at("ec").as_array();
	if (!ec.empty()) {
		r.effect_colour = mk_colour(ec[0]);
	}
	auto const& fn = o.at("fn").as_array();
	if (!fn.empty()) {
		r.font = unhex(fn[0].as_string().c_str());
	}
	r.font_size = mk_fs(o.at("fs"), u);
}

static sub::RawSubtitle
mk_raw(js::object const& o, Units u)
{
	sub::RawSubtitle r;
	mk_block(r, o, u);
	r.horizontal_position = mk_h(o.at("h"), u);
	r.vertical_position = mk_v(o.at("v"), u);
	r.from = mk_time(o.at("f"));
	r.to = mk_time(o.at("o"));
	r.fade_up = mk_opt_time(o.at("fu"));
	r.fade_down = mk_opt_time(o.at("fd"));
	return r;
}

static sub::Subtitle
mk_subtitle(js::object const& o, Units u)
{
	sub::Subtitle s;
	s.from = mk_time(o.at("f"));
	s.to = mk_time(o.at("o"));
	s.fade_up = mk_opt_time(o.at("fu"));
	s.fade_down = mk_opt_time(o.at("fd"));
	for (auto const& l: o.at("l").as_array()) {
		auto const& ol = l.as_object();
		sub::Line line;
		line.horizontal_position = mk_h(ol.at("h"), u);
		line.vertical_position = mk_v(ol.at("v"), u);
		for (auto const& b: ol.at("b").as_array()) {
			sub::Block block;
			mk_block(block, b.as_object(), u);
			line.blocks.push_back(block);
		}
		s.lines.push_back(line);
	}
	return s;
}

/* ---- readers ------------------------------------------------------------ */

static void
write_file(string const& path, string const& data)
{
	FILE* f = fopen(path.c_str(), "w");
	if (!f) {
		fprintf(stderr, "harness: cannot write %s\n", path.c_str());
		_exit(97);
	}
	fwrite(data.data(), 1, data.size(), f);
	fclose(f);
}

/* ---- a device which hands over what it has in portions, and may fail at some point */

struct Device
{
	string path;             ///< as it is given to fopen()
	string real;             ///< canonical
	vector<size_t> portions; ///< of successive calls, over and over again
	long limit = -1;         ///< no byte from here on can be read, if it is not negative
	size_t calls = 0;
	size_t fails = 0;
};
static thread_local Device* device = nullptr;

static ssize_t
device_read(int fd, void* buf, size_t n)
{
	off_t const at = lseek(fd, 0, SEEK_CUR);
	n = std::min(n, device->portions[device->calls % device->portions.size()]);
	++device->calls;
	if (device->limit >= 0) {
		if (at >= device->limit) {
			++device->fails;
			errno = EIO;
			return -1;
		}
		n = std::min(n, size_t(device->limit - at));
	}
	return syscall(SYS_read, fd, buf, n);
}

/* (as file streams use it) */
extern "C" ssize_t
read(int fd, void* buf, size_t n)
{
	if (device) {
		char link[64], target[4096];
		snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
		ssize_t l = readlink(link, target, sizeof(target));
		if (l > 0 && string(target, l) == device->real) {
			return device_read(fd, buf, n);
		}
	}
	return syscall(SYS_read, fd, buf, n);
}

static ssize_t cookie_read(void* fd, char* buf, size_t n) { return device_read(*static_cast<int*>(fd), buf, n); }
static int cookie_close(void* fd) { int r = close(*static_cast<int*>(fd)); delete static_cast<int*>(fd); return r; }
static int cookie_seek(void* fd, off64_t* at, int whence)
{
	off_t r = lseek(*static_cast<int*>(fd), *at, whence);
	*at = r;
	return r < 0 ? -1 : 0;
}

extern "C" FILE*
fopen(char const* path, char const* mode)
{
	/* (streams of the C++ library need a real file) */
	Dl_info caller;
	bool const ours = !dladdr(__builtin_return_address(0), &caller) || !caller.dli_fname || !strstr(caller.dli_fname, "libstdc++");
	if (device && ours && path == device->path && mode[0] == 'r') {
		int fd = open(path, O_RDONLY);
		if (fd < 0) {
			return nullptr;
		}
		cookie_io_functions_t f = {cookie_read, nullptr, cookie_seek, cookie_close};
		return fopencookie(new int(fd), mode, f);
	}
	static FILE* (*real)(char const*, char const*) = reinterpret_cast<FILE* (*)(char const*, char const*)>(dlsym(RTLD_NEXT, "fopen"));
	return real(path, mode);
}

static std::shared_ptr<sub::Reader>
make_reader(string fmt, string src, string const& data, string const& name, js::object const* dev = nullptr)
{
	typedef std::shared_ptr<sub::Reader> R;

	Device d;
	struct Off { ~Off() { device = nullptr; } } off;
	auto attach = [&](string const& path) {
		if (!dev) {
			return;
		}
		d.path = path;
		d.real = boost::filesystem::canonical(path).string();
		for (auto const& i: dev->at("portions").as_array()) {
			d.portions.push_back(i.as_int64());
		}
		d.limit = dev->at("limit").as_int64();
		device = &d;
	};

	if (src == "factory") {
		string const path = scratch + "/" + name;
		if (name.find('/') != string::npos) {
			boost::filesystem::create_directories(boost::filesystem::path(path).parent_path());
		}
		write_file(path, data);
		attach(path);
		return sub::reader_factory(path);
	}

	if (src == "missing") {
		return sub::reader_factory(scratch + "/" + name);
	}

	if (src == "directory") {
		string const path = scratch + "/" + name;
		mkdir(path.c_str(), 0777);
		struct Remover { string p; ~Remover() { rmdir(p.c_str()); } } remover{path};
		return sub::reader_factory(path);
	}

	if (src == "string") {
		if (fmt == "srt") return R(new sub::SubripReader(data));
		if (fmt == "vtt") return R(new sub::WebVTTReader(data));
		if (fmt == "ssa") return R(new sub::SSAReader(data));
	} else if (src == "file") {
		string const path = scratch + "/input";
		write_file(path, data);
		attach(path);
		FILE* f = fopen(path.c_str(), "r");
		struct Closer { FILE* f; ~Closer() { fclose(f); } } closer{f};
		if (fmt == "srt") return R(new sub::SubripReader(f));
		if (fmt == "vtt") return R(new sub::WebVTTReader(f));
		if (fmt == "ssa") return R(new sub::SSAReader(f));
		if (fmt == "stlb") return R(new sub::STLBinaryReader(f));
	} else if (src == "stream") {
		string const path = scratch + "/input";
		write_file(path, data);
		attach(path);
		std::ifstream s(path.c_str());
		if (fmt == "stlt") return R(new sub::STLTextReader(s));
		if (fmt == "stlb") return R(new sub::STLBinaryReader(s));
	} else if (src == "istream") {
		std::istringstream s(data);
		if (fmt == "stlt") return R(new sub::STLTextReader(s));
		if (fmt == "stlb") return R(new sub::STLBinaryReader(s));
	}

	fprintf(stderr, "harness: bad reader request %s/%s\n", fmt.c_str(), src.c_str());
	_exit(97);
}

static void
report_reader(js::object& o, js::object const& c, std::shared_ptr<sub::Reader> r, Units u)
{
	if (!r) {
		o["null"] = 1;
		return;
	}
	string kind = "?";
	if (dynamic_cast<sub::SubripReader*>(r.get())) kind = "srt";
	else if (dynamic_cast<sub::WebVTTReader*>(r.get())) kind = "vtt";
	else if (dynamic_cast<sub::SSAReader*>(r.get())) kind = "ssa";
	else if (dynamic_cast<sub::STLTextReader*>(r.get())) kind = "stlt";
	else if (dynamic_cast<sub::STLBinaryReader*>(r.get())) kind = "stlb";
	o["kind"] = kind;
	o["subs"] = obs(r->subtitles(), u);
	if (num(c, "meta")) {
		js::array m;
		for (auto const& i: r->metadata()) {
			m.push_back(js::array{js::string(i.first), js::string(hex(i.second))});
		}
		o["meta"] = m;
	}
	if (num(c, "fields")) {
		if (auto b = std::dynamic_pointer_cast<sub::STLBinaryReader>(r)) {
			o["fields"] = js::array{
				b->code_page_number, b->frame_rate, index_of(standards, b->display_standard), index_of(language_groups, b->language_group), index_of(languages, b->language),
				b->tti_blocks, b->number_of_subtitles, b->subtitle_groups, b->maximum_characters, b->maximum_rows,
				index_of(timecode_statuses, b->timecode_status), b->disks, b->disk_sequence_number
			};
			js::array s;
			for (auto i: {
				b->original_programme_title, b->original_episode_title, b->translated_programme_title, b->translated_episode_title,
				b->translator_name, b->translator_contact_details, b->subtitle_list_reference_code, b->creation_date, b->revision_date,
				b->revision_number, b->start_of_programme, b->first_in_cue, b->country_of_origin, b->publisher, b->editor_name,
				b->editor_contact_details }) {
				s.push_back(js::string(hex(i)));
			}
			o["strings"] = s;
		}
	}
	if (num(c, "collect")) {
		o["col"] = obs_subs(sub::collect<vector<sub::Subtitle>>(r->subtitles()), u);
	}
	if (num(c, "dump")) {
		std::ostringstream s;
		sub::dump(r, s);
		o["dump"] = hex(s.str());
	}
}

static js::object
op_read(js::object const& c)
{
	js::object o;
	Units const u{num(c, "vu", 1), num(c, "hu", 1)};
	string const data = bytes(c, "in");
	string const name = c.contains("name") ? bytes(c, "name") : "";
	int const fds = open_fds();
	guarded(o, [&]() {
		auto r = make_reader(str(c, "fmt"), str(c, "src"), data, name, c.contains("device") ? &c.at("device").as_object() : nullptr);
		report_reader(o, c, r, u);
	});
	o["fds"] = open_fds() - fds;
	if (!name.empty()) {
		unlink((scratch + "/" + name).c_str());
	}
	return o;
}

/** Read the same bytes from several sources */
static js::object
op_sources(js::object const& c)
{
	js::object o;
	js::array all;
	exact_context = true;
	for (auto const& s: c.at("srcs").as_array()) {
		js::object d = c;
		d["src"] = s;
		auto r = op_read(d);
		r["src"] = s;
		all.push_back(r);
	}
	exact_context = false;
	o["err"] = "";
	o["all"] = all;
	return o;
}

/** Read some bytes, and the first few of them as well */
static js::object
op_cuts(js::object const& c)
{
	exact_context = true;
	auto o = op_read(c);
	js::array cuts;
	string const data = str(c, "in");
	for (auto const& i: c.at("cuts").as_array()) {
		js::object d = c;
		d["in"] = data.substr(0, i.as_int64() * 2);
		cuts.push_back(op_read(d));
	}
	exact_context = false;
	o["cuts"] = cuts;
	return o;
}

/** A reader whose contents are whatever we like */
class FixedReader : public sub::Reader
{
public:
	FixedReader(vector<sub::RawSubtitle> const& s, std::map<string, string> const& m)
		: _meta(m)
	{
		_subs = s;
	}

	std::map<string, string> metadata() const override { return _meta; }

private:
	std::map<string, string> _meta;
};

static vector<sub::RawSubtitle>
mk_raws(js::object const& c, Units u)
{
	vector<sub::RawSubtitle> raw;
	for (auto const& i: c.at("raw").as_array()) {
		raw.push_back(mk_raw(i.as_object(), u));
	}
	return raw;
}

static js::object
op_dump(js::object const& c)
{
	js::object o;
	Units const u{num(c, "vu", 1), num(c, "hu", 1)};
	std::map<string, string> m;
	for (auto const& i: c.at("meta").as_array()) {
		m[unhex(i.as_array()[0].as_string().c_str())] = unhex(i.as_array()[1].as_string().c_str());
	}
	std::shared_ptr<sub::Reader> r(new FixedReader(mk_raws(c, u), m));
	guarded(o, [&]() {
		std::ostringstream s;
		sub::dump(r, s);
		o["dump"] = hex(s.str());
	});
	return o;
}

static js::object
op_collect(js::object const& c)
{
	js::object o;
	Units const u{num(c, "vu", 1), num(c, "hu", 1)};
	auto raw = mk_raws(c, u);
	guarded(o, [&]() {
		o["col"] = obs_subs(sub::collect<vector<sub::Subtitle>>(raw), u);
		o["list"] = obs_subs(sub::collect<std::list<sub::Subtitle>>(raw), u);
		o["deque"] = obs_subs(sub::collect<std::deque<sub::Subtitle>>(raw), u);
		o["rawafter"] = obs(raw, u);
	});
	return o;
}

/* ---- times ---------------------------------------------------------------- */

static string
tri(std::function<bool ()> f)
{
	try {
		return f() ? "T" : "F";
	} catch (sub::UnknownFrameRateError&) {
		return "U";
	} catch (sub::ProgrammingError&) {
		return "P";
	} catch (...) {
		return "?";
	}
}

static js::object
op_timecmp(js::object const& c)
{
	auto const a = mk_time(c.at("a"));
	auto const b = mk_time(c.at("b"));
	js::object o;
	o["lt"] = tri([&]() { return a < b; });
	o["gt"] = tri([&]() { return a > b; });
	o["eq"] = tri([&]() { return a == b; });
	o["ne"] = tri([&]() { return a != b; });
	return o;
}

static js::object
op_time(js::object const& c)
{
	js::object o;
	string const what = str(c, "what");
	guarded(o, [&]() {
		if (what == "acc") {
			auto const a = mk_time(c.at("a"));
			o["hms"] = js::array{a.hours(), a.minutes(), a.seconds()};
			std::ostringstream s;
			s << a;
			o["str"] = hex(s.str());
			o["t"] = obs(a);
		} else if (what == "hms") {
			auto const& x = c.at("x").as_array();
			o["t"] = obs(sub::Time::from_hms(int(x[0].as_int64()), int(x[1].as_int64()), int(x[2].as_int64()), int(x[3].as_int64())));
		} else if (what == "hmsf") {
			auto const& x = c.at("x").as_array();
			optional<sub::Rational> r;
			if (x[4].as_int64()) {
				r = sub::Rational(int(x[4].as_int64()), int(x[5].as_int64()));
			}
			o["t"] = obs(sub::Time::from_hmsf(int(x[0].as_int64()), int(x[1].as_int64()), int(x[2].as_int64()), int(x[3].as_int64()), r));
		} else if (what == "at") {
			auto const& r = c.at("r").as_array();
			auto const a = mk_time(c.at("a"));
			o["n"] = a.frames_at(sub::Rational(int(r[0].as_int64()), int(r[1].as_int64())));
			o["ms"] = a.milliseconds();
			o["secs"] = units(a.all_as_seconds(), 1000);
		} else if (what == "frames") {
			auto const& r = c.at("r").as_array();
			o["t"] = obs(sub::Time::from_frames(num(c, "n"), sub::Rational(int(r[0].as_int64()), int(r[1].as_int64()))));
		} else if (what == "add") {
			auto a = mk_time(c.at("a"));
			a.add(mk_time(c.at("b")));
			o["t"] = obs(a);
		} else if (what == "scale") {
			auto a = mk_time(c.at("a"));
			auto const& f = c.at("f").as_array();
			a.scale(float(f[0].as_int64()) / float(f[1].as_int64()));
			o["t"] = obs(a);
		} else if (what == "zero") {
			sub::Time z;
			o["t"] = obs(z);
		}
	});
	return o;
}

/* ---- ISO 6937 --------------------------------------------------------------- */

static js::array
obs_w(std::wstring const& w)
{
	js::array a;
	for (auto i: w) {
		a.push_back(int64_t(i));
	}
	return a;
}

static js::object
op_iso_here(js::object const& c)
{
	js::object o;
	guarded(o, [&]() {
		/* A history of conversions in order; d = decode, e = encode */
		js::array res;
		for (auto const& i: c.at("ops").as_array()) {
			auto const& p = i.as_array();
			if (p[0].as_string() == "d") {
				res.push_back(obs_w(sub::iso6937_to_utf16(unhex(p[1].as_string().c_str()))));
			} else {
				std::wstring w;
				for (auto const& k: p[1].as_array()) {
					w += wchar_t(k.as_int64());
				}
				js::array e;
				for (unsigned char b: sub::utf16_to_iso6937(w)) {
					e.push_back(int(b));
				}
				res.push_back(e);
			}
		}
		o["res"] = res;
	});
	return o;
}

static int fork_alarm = 20;

/** Run f in a child process and return what it answered ("crash" or "hang" if it did not) */
template <class F>
static js::object
forked(F f)
{
	int fd[2];
	if (pipe(fd)) {
		_exit(97);
	}
	pid_t pid = fork();
	if (!pid) {
		close(fd[0]);
		alarm(fork_alarm);
		string const s = js::serialize(f());
		size_t off = 0;
		while (off < s.size()) {
			ssize_t n = ::write(fd[1], s.data() + off, s.size() - off);
			if (n <= 0) {
				break;
			}
			off += n;
		}
		_exit(0);
	}
	close(fd[1]);
	string s;
	char buf[65536];
	ssize_t n;
	while ((n = ::read(fd[0], buf, sizeof(buf))) > 0) {
		s.append(buf, n);
	}
	close(fd[0]);
	int status;
	waitpid(pid, &status, 0);
	js::object o;
	if (s.empty() || !WIFEXITED(status) || WEXITSTATUS(status)) {
		o["err"] = WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? "hang" : "crash";
		return o;
	}
	return js::parse(s).as_object();
}

static js::object
op_iso(js::object const& c)
{
	/* with fork, these are the first conversions of their process */
	return num(c, "fork") ? forked([&]() { return op_iso_here(c); }) : op_iso_here(c);
}

/* ---- STL writer ------------------------------------------------------------- */

struct WriterArgs
{
	vector<sub::Subtitle> subs;
	float fps;
	sub::Language language;
	vector<string> s;
	int revision;
};

static WriterArgs
mk_writer_args(js::object const& c, Units u)
{
	WriterArgs w;
	if (c.contains("subs")) {
		for (auto const& i: c.at("subs").as_array()) {
			w.subs.push_back(mk_subtitle(i.as_object(), u));
		}
		/* over and over again */
		auto const once = w.subs;
		for (int i = 1; i < num(c, "n", 1); ++i) {
			w.subs.insert(w.subs.end(), once.begin(), once.end());
		}
	}
	auto const& f = c.at("fps").as_array();
	w.fps = float(double(f[0].as_int64()) / double(f[1].as_int64()));
	w.language = languages[num(c, "lang")];
	for (auto const& i: c.at("hdr").as_array()) {
		w.s.push_back(unhex(i.as_string().c_str()));
	}
	w.revision = num(c, "rev");
	return w;
}

static void
call_writer(WriterArgs const& w, string const& path)
{
	sub::write_stl_binary(
		w.subs, w.fps, w.language,
		w.s[0], w.s[1], w.s[2], w.s[3], w.s[4], w.s[5], w.s[6], w.s[7],
		w.revision, w.s[8], w.s[9], w.s[10], w.s[11], path);
}

static string
slurp(string const& path)
{
	std::ifstream f(path.c_str(), std::ios::binary);
	std::ostringstream s;
	s << f.rdbuf();
	return s.str();
}

static js::object
op_write(js::object const& c)
{
	js::object o;
	Units const u{num(c, "vu", 1), num(c, "hu", 1)};
	string const path = scratch + "/out.stl";
	unlink(path.c_str());
	if (num(c, "pre")) {
		/* there is already something there */
		write_file(path, string(num(c, "pre"), 'x'));
	}
	int const fds = open_fds();
	auto w = mk_writer_args(c, u);
	guarded(o, [&]() {
		if (c.contains("chain")) {
			/* read another format, collect and write */
			auto const& ch = c.at("chain").as_object();
			auto r = make_reader(str(ch, "fmt"), str(ch, "src"), bytes(ch, "in"), "chain.srt");
			w.subs = sub::collect<vector<sub::Subtitle>>(r->subtitles());
			o["col"] = obs_subs(w.subs, u);
		}
		call_writer(w, path);
		string out = slurp(path);
		int const n = num(c, "n", 1);
		if (n > 1) {
			/* report the header and the blocks of the first of n parts, and whether the others are the same */
			o["size"] = int64_t(out.size());
			size_t const part = out.size() > 1024 ? (out.size() - 1024) / n : 0;
			bool same = true;
			for (int i = 1; i < n; ++i) {
				same = same && out.compare(1024 + i * part, part, out, 1024, part) == 0;
			}
			o["same"] = same;
			out = out.substr(0, 1024 + part);
		}
		o["out"] = hex(out);
		if (num(c, "twice")) {
			call_writer(w, path);
			o["again"] = hex(slurp(path));
		}
	});
	if (num(c, "back")) {
		js::object b;
		guarded(b, [&]() {
			std::ifstream f(path.c_str(), std::ios::binary);
			auto r = std::make_shared<sub::STLBinaryReader>(f);
			report_reader(b, c, r, Units{1, 1});
		});
		o["back"] = b;
	}
	o["fds"] = open_fds() - fds;
	unlink(path.c_str());
	return o;
}

/* ---- a device whose write calls do as they are told ------------------------ */

/* Outcomes of successive write calls to fault_path: 'o' ok, 's' writes only half, 'n' no
 * space, 'i' I/O error, 'e' interrupted.  After the script the device is well (or, if it
 * ends in '*', the last outcome is repeated).
 */
static string fault_path;
static string fault_script;
static size_t fault_calls = 0;
static size_t fault_fails = 0;

static ssize_t
faulty_write(int fd, struct iovec const* v, int n)
{
	if (!fault_path.empty()) {
		char link[64], target[4096];
		snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
		ssize_t l = readlink(link, target, sizeof(target));
		if (l > 0 && string(target, l) == fault_path) {
			char outcome = 'o';
			if (fault_calls < fault_script.size()) {
				outcome = fault_script[fault_calls];
			}
			if (!fault_script.empty() && fault_script.back() == '*' && fault_calls + 1 >= fault_script.size()) {
				outcome = fault_script[fault_script.size() - 2];
			}
			++fault_calls;
			if (outcome == 'n' || outcome == 'i' || outcome == 'e') {
				++fault_fails;
				errno = outcome == 'n' ? ENOSPC : outcome == 'i' ? EIO : EINTR;
				return -1;
			}
			if (outcome == 's') {
				size_t total = 0;
				for (int i = 0; i < n; ++i) {
					total += v[i].iov_len;
				}
				string all;
				for (int i = 0; i < n; ++i) {
					all.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
				}
				return syscall(SYS_write, fd, all.data(), total > 1 ? total / 2 : total);
			}
		}
	}
	return syscall(SYS_writev, fd, v, n);
}

extern "C" ssize_t
write(int fd, void const* buf, size_t n)
{
	if (fault_path.empty()) {
		return syscall(SYS_write, fd, buf, n);
	}
	struct iovec v;
	v.iov_base = const_cast<void*>(buf);
	v.iov_len = n;
	return faulty_write(fd, &v, 1);
}

extern "C" ssize_t
writev(int fd, struct iovec const* v, int n)
{
	return faulty_write(fd, v, n);
}

/** Write with a limit on file size (or to a path that can't be written) in a child process */
static js::object
op_writefault(js::object const& c)
{
	js::object o;
	Units const u{num(c, "vu", 1), num(c, "hu", 1)};
	auto const w = mk_writer_args(c, u);
	string path = scratch + "/fault.stl";
	string const kind = str(c, "kind");
	if (kind == "dir") {
		path = scratch + "/nonexistent/fault.stl";
	} else if (kind == "isdir") {
		path = scratch + "/isdir.stl";
		mkdir(path.c_str(), 0777);
	} else if (kind == "full") {
		/* (through a link, so that nothing can happen to the device itself) */
		path = scratch + "/full.stl";
		unlink(path.c_str());
		if (symlink("/dev/full", path.c_str())) {
			_exit(97);
		}
	} else {
		unlink(path.c_str());
		if (num(c, "pre")) {
			write_file(path, string(num(c, "pre"), 'x'));
		}
	}
	int fd[2];
	if (pipe(fd)) {
		_exit(97);
	}
	pid_t pid = fork();
	if (!pid) {
		close(fd[0]);
		alarm(20);
		if (kind == "limit") {
			signal(SIGXFSZ, SIG_IGN);
			struct rlimit r;
			r.rlim_cur = r.rlim_max = num(c, "limit");
			setrlimit(RLIMIT_FSIZE, &r);
		}
		if (kind == "nofile") {
			struct rlimit r;
			r.rlim_cur = r.rlim_max = 3;
			setrlimit(RLIMIT_NOFILE, &r);
		}
		if (kind == "script") {
			fault_script = str(c, "script");
			fault_path = boost::filesystem::canonical(scratch).string() + "/fault.stl";
		}
		js::object e;
		guarded(e, [&]() { call_writer(w, path); });
		fault_path.clear();
		e["calls"] = int(fault_calls);
		e["fails"] = int(fault_fails);
		string const s = js::serialize(e);
		ssize_t ignored = ::write(fd[1], s.data(), s.size());
		(void) ignored;
		_exit(0);
	}
	close(fd[1]);
	string s;
	char b[4096];
	ssize_t n;
	while ((n = ::read(fd[0], b, sizeof(b))) > 0) {
		s.append(b, n);
	}
	close(fd[0]);
	int status;
	waitpid(pid, &status, 0);
	if (s.empty()) {
		o["err"] = "crash";
	} else {
		o = js::parse(s).as_object();
	}
	if (kind == "limit" || kind == "none" || kind == "script") {
		o["out"] = hex(slurp(path));
		unlink(path.c_str());
	}
	return o;
}

/* ---- tables ------------------------------------------------------------------- */

static js::object
op_table(js::object const& c)
{
	js::object o;
	sub::STLBinaryTables t;
	string const k = str(c, "k");
	guarded(o, [&]() {
		if (k == "language") o["v"] = index_of(languages, t.language_file_to_enum(bytes(c, "code")));
		else if (k == "group") o["v"] = index_of(language_groups, t.language_group_file_to_enum(bytes(c, "code")));
		else if (k == "standard") o["v"] = index_of(standards, t.display_standard_file_to_enum(bytes(c, "code")));
		else if (k == "timecode") o["v"] = index_of(timecode_statuses, t.timecode_status_file_to_enum(bytes(c, "code")));
		else if (k == "cumulative") o["v"] = index_of(cumulative_statuses, t.cumulative_status_file_to_enum(num(c, "n")));
		else if (k == "justification") o["v"] = index_of(justifications, t.justification_file_to_enum(num(c, "n")));
		else if (k == "comment") o["v"] = index_of(comments, t.comment_file_to_enum(num(c, "n")));
		else if (k == "language_e") {
			auto const e = languages[num(c, "n")];
			o["code"] = hex(t.language_enum_to_file(e));
			string const d = t.language_enum_to_description(e);
			o["desc"] = hex(d);
			auto const b = t.language_description_to_enum(d);
			o["back"] = b ? index_of(languages, *b) : -1;
		} else if (k == "cumulative_e") {
			auto const e = cumulative_statuses[num(c, "n")];
			o["n"] = t.cumulative_status_enum_to_file(e);
			o["desc"] = hex(t.cumulative_status_enum_to_description(e));
		} else if (k == "justification_e") {
			auto const e = justifications[num(c, "n")];
			o["n"] = t.justification_enum_to_file(e);
			o["desc"] = hex(t.justification_enum_to_description(e));
		} else if (k == "comment_e") {
			auto const e = comments[num(c, "n")];
			o["n"] = t.comment_enum_to_file(e);
			o["desc"] = hex(t.comment_enum_to_description(e));
		} else if (k == "group_e") {
			o["desc"] = hex(t.language_group_enum_to_description(language_groups[num(c, "n")]));
		} else if (k == "standard_e") {
			o["desc"] = hex(t.display_standard_enum_to_description(standards[num(c, "n")]));
		} else if (k == "timecode_e") {
			o["desc"] = hex(t.timecode_status_enum_to_description(timecode_statuses[num(c, "n")]));
		} else if (k == "desc") {
			auto const b = t.language_description_to_enum(bytes(c, "d"));
			o["v"] = b ? index_of(languages, *b) : -1;
		} else if (k == "dfc_r") {
			o["mhz"] = units(sub::stl_dfc_to_frame_rate(bytes(c, "code")), 1000);
		} else if (k == "dfc_w") {
			auto const& f = c.at("fps").as_array();
			o["code"] = hex(sub::stl_frame_rate_to_dfc(float(double(f[0].as_int64()) / double(f[1].as_int64()))));
		}
	});
	return o;
}

/* ---- small values ---------------------------------------------------------------- */

static js::object
op_value(js::object const& c)
{
	js::object o;
	Units const u{num(c, "vu", 1), num(c, "hu", 1)};
	string const k = str(c, "k");
	guarded(o, [&]() {
		if (k == "v") {
			auto const a = mk_v(c.at("a"), u);
			auto const b = mk_v(c.at("b"), u);
			o["fa"] = units(a.fraction_from_screen_top(), num(c, "fu", 1));
			o["fb"] = units(b.fraction_from_screen_top(), num(c, "fu", 1));
			o["eq"] = a == b ? 1 : 0;
			o["lt"] = a < b ? 1 : 0;
		} else if (k == "h") {
			o["eq"] = mk_h(c.at("a"), u) == mk_h(c.at("b"), u) ? 1 : 0;
		} else if (k == "fs") {
			auto const a = mk_fs(c.at("a"), u);
			o["spec"] = a.specified() ? 1 : 0;
			o["obs"] = obs(a, u);
			if (a.specified()) {
				int const h = num(c, "height");
				o["pt"] = a.points(h);
				o["pr"] = units(a.proportional(h), num(c, "pu", 1));
			}
		} else if (k == "fscmp") {
			o["eq"] = mk_fs(c.at("a"), u) == mk_fs(c.at("b"), u) ? 1 : 0;
		} else if (k == "rat") {
			auto mk = [&](char const* n) {
				auto const& x = c.at(n).as_array();
				return sub::Rational(int(x[0].as_int64()), int(x[1].as_int64()));
			};
			auto const a = mk("a");
			auto const b = mk("b");
			auto const m = sub::max(a, b);
			o["eq"] = a == b ? 1 : 0;
			o["whole"] = a.integer() ? 1 : 0;
			o["floor"] = a.integer_fraction();
			o["f"] = units(a.fraction(), a.denominator);
			o["max"] = js::array{m.numerator, m.denominator};
		} else if (k == "fsb") {
			auto mk = [&](char const* n) {
				auto const& x = c.at(n).as_array();
				sub::FontSize f;
				if (!x[0].as_array().empty()) {
					f.set_points(int(x[0].as_array()[0].as_int64()));
				}
				if (!x[1].as_array().empty()) {
					f.set_proportional(float(x[1].as_array()[0].as_int64()) / u.v);
				}
				return f;
			};
			auto const a = mk("a");
			o["eq"] = a == mk("b") ? 1 : 0;
			o["spec"] = a.specified() ? 1 : 0;
			if (a.specified()) {
				int const h = num(c, "height");
				o["pt"] = a.points(h);
				o["pr"] = units(a.proportional(h), num(c, "pu", 1));
			}
		} else if (k == "fsmk") {
			o["pt"] = obs(sub::FontSize::from_points(num(c, "n")), u);
			o["pr"] = obs(sub::FontSize::from_proportional(float(num(c, "n")) / u.v), u);
		} else if (k == "rgb") {
			o["c"] = obs(sub::Colour::from_rgb_hex(bytes(c, "x")));
		} else if (k == "rgba") {
			o["c"] = obs(sub::Colour::from_rgba_hex(bytes(c, "x")));
		} else if (k == "effect") {
			o["e"] = effect_name(sub::string_to_effect(bytes(c, "x")));
		} else if (k == "vref") {
			o["v"] = int(sub::string_to_vertical_reference(bytes(c, "x")));
		} else if (k == "white") {
			o["e"] = sub::empty_or_white_space(bytes(c, "x")) ? 1 : 0;
		} else if (k == "subeq") {
			auto const a = mk_subtitle(c.at("a").as_object(), u);
			auto const b = mk_subtitle(c.at("b").as_object(), u);
			o["eq"] = a == b ? 1 : 0;
			o["qe"] = b == a ? 1 : 0;
			if (a.lines.size() == 1 && b.lines.size() == 1) {
				o["leq"] = a.lines[0] == b.lines[0] ? 1 : 0;
				if (a.lines[0].blocks.size() == 1 && b.lines[0].blocks.size() == 1) {
					o["beq"] = a.lines[0].blocks[0] == b.lines[0].blocks[0] ? 1 : 0;
				}
			}
		} else if (k == "defaults") {
			sub::RawSubtitle r;
			o["raw"] = obs(r, u);
			sub::Block b;
			o["block"] = obs_block(b, u);
			sub::Line l;
			o["lh"] = obs(l.horizontal_position, u);
			o["lv"] = obs(l.vertical_position, u);
			o["n"] = int(l.blocks.size() + sub::Subtitle().lines.size());
		}
	});
	return o;
}

/* ---- schedules --------------------------------------------------------------------- */

static js::object dispatch(js::object const& c);

/* Threads each do a job (a case of any other kind).  Where the library allocates memory is
 * a point at which the running thread can be made to stop and another one to go on, so
 * that a given schedule (segments of so many allocations by such a thread) is followed.
 * A thread which does not come to its next point (since it waits for another one) loses
 * its turn.  Everything is relaxed so that it orders nothing in the eyes of
 * ThreadSanitizer.
 */

struct Segment
{
	int thread;
	long points;
};

static int const max_threads = 8;
static thread_local int t_index = -1;
static thread_local long t_points = 0;
static vector<Segment> segments;
static std::atomic<int> scheduled(0);
static std::atomic<int> segment(0);
static std::atomic<long> quota(0);
static std::atomic<long> progress(0);
static std::atomic<int> thread_done[max_threads];
static std::atomic<int> stalls(0);
static std::atomic<int> switches(0);

static std::memory_order const relaxed = std::memory_order_relaxed;

/* Go from segment k to the next one that can be followed */
static void
next_segment(int k)
{
	int to = k + 1;
	while (to < int(segments.size()) && thread_done[segments[to].thread].load(relaxed)) {
		++to;
	}
	long const q = to < int(segments.size()) ? segments[to].points : 0;
	if (segment.compare_exchange_strong(k, -1, relaxed)) {
		quota.store(q, relaxed);
		if (to < int(segments.size())) {
			switches.fetch_add(1, relaxed);
		}
		segment.store(to, relaxed);
	}
	progress.fetch_add(1, relaxed);
}

static void
schedule_point()
{
	if (t_index < 0) {
		return;
	}
	++t_points;
	while (scheduled.load(relaxed)) {
		int const k = segment.load(relaxed);
		if (k >= int(segments.size())) {
			/* the schedule is over */
			return;
		}
		if (k >= 0 && segments[k].thread == t_index) {
			long const q = quota.load(relaxed);
			if (q > 0) {
				quota.store(q - 1, relaxed);
				progress.fetch_add(1, relaxed);
				return;
			}
			next_segment(k);
			continue;
		}
		usleep(10);
	}
}

#ifdef HOOK_NEW
void* operator new(std::size_t n)
{
	schedule_point();
	void* p = malloc(n ? n : 1);
	if (!p) {
		throw std::bad_alloc();
	}
	return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
#endif

/* One thread's part: its job, so many times over */
static js::array
thread_part(js::object const& job, string const& dir, int index, int reps)
{
	scratch = dir + "/t" + std::to_string(index);
	mkdir(scratch.c_str(), 0777);
	js::array r;
	for (int j = 0; j < reps; ++j) {
		t_index = index;
		auto o = dispatch(job);
		t_index = -1;
		o.erase("fds");
		if (!j || js::value(o) != r[r.size() - 1]) {
			/* (the same again is not interesting) */
			r.push_back(o);
		}
	}
	rmdir(scratch.c_str());
	return r;
}

static js::object
op_threads(js::object const& c)
{
	auto const& jobs = c.at("jobs").as_array();
	int const n = jobs.size();
	int const reps = num(c, "reps", 1);
	string const dir = scratch;

	exact_context = true;
	auto o = forked([&]() {
		js::object e;
		vector<js::array> result(n);
		vector<long> points(n);
		bool const follow = c.contains("schedule");
		if (follow) {
			for (auto const& i: c.at("schedule").as_array()) {
				segments.push_back(Segment{int(i.as_array()[0].as_int64()), long(i.as_array()[1].as_int64())});
			}
			segment = -1;
			next_segment(-1);
			scheduled = 1;
		}
		std::atomic<int> ready(0), go(0);
		vector<std::thread> threads;
		for (int i = 0; i < n; ++i) {
			threads.emplace_back([&, i]() {
				ready.fetch_add(1, relaxed);
				while (!go.load(relaxed)) {
					usleep(1);
				}
				auto r = thread_part(jobs[i].as_object(), dir, i, reps);
				result[i] = r;
				points[i] = t_points;
				thread_done[i].store(1, relaxed);
				int const k = segment.load(relaxed);
				if (follow && k >= 0 && k < int(segments.size()) && segments[k].thread == i) {
					next_segment(k);
				}
			});
		}
		while (ready.load(relaxed) < n) {
			usleep(1);
		}
		go.store(1, relaxed);
		if (follow) {
			/* see that there is progress */
			long last = progress.load(relaxed);
			int still = 0;
			while (segment.load(relaxed) < int(segments.size())) {
				usleep(100);
				long const now = progress.load(relaxed);
				still = now == last ? still + 1 : 0;
				last = now;
				if (still >= 15) {
					int const k = segment.load(relaxed);
					if (k >= 0 && k < int(segments.size())) {
						stalls.fetch_add(1, relaxed);
						next_segment(k);
					}
					still = 0;
				}
			}
			scheduled = 0;
		}
		for (auto& i: threads) {
			i.join();
		}
		js::array all, p;
		for (int i = 0; i < n; ++i) {
			all.push_back(result[i]);
			p.push_back(points[i]);
		}
		e["err"] = "";
		e["together"] = all;
		e["points"] = p;
		e["stalls"] = int(stalls);
		e["switches"] = int(switches);
		return e;
	});
	if (o["err"] == "") {
		/* each on its own, in a process of its own */
		js::array alone;
		for (int i = 0; i < n; ++i) {
			alone.push_back(forked([&]() {
				js::object e = thread_part(jobs[i].as_object(), dir, i, 1)[0].as_object();
				return e;
			}));
		}
		o["alone"] = alone;
	}
	exact_context = false;
	return o;
}

/* ------------------------------------------------------------------------------------- */

static js::object dispatch(js::object const& c);

/** Do the same thing under several locales */
static js::object
op_locales(js::object const& c)
{
	js::object o;
	js::array all;
	exact_context = true;
	for (auto const& l: c.at("locs").as_array()) {
		if (!setlocale(LC_ALL, l.as_string().c_str())) {
			fprintf(stderr, "harness: no locale %s\n", l.as_string().c_str());
			_exit(98);
		}
		auto r = dispatch(c.at("case").as_object());
		setlocale(LC_ALL, "C");
		all.push_back(r);
	}
	exact_context = false;
	o["err"] = "";
	o["all"] = all;
	return o;
}

static js::object
dispatch(js::object const& c)
{
	string const op = str(c, "op");
	if (op == "read") return op_read(c);
	if (op == "cuts") return op_cuts(c);
	if (op == "sources") return op_sources(c);
	if (op == "locales") return op_locales(c);
	if (op == "collect") return op_collect(c);
	if (op == "dump") return op_dump(c);
	if (op == "timecmp") return op_timecmp(c);
	if (op == "time") return op_time(c);
	if (op == "iso") return op_iso(c);
	if (op == "write") return op_write(c);
	if (op == "writefault") return op_writefault(c);
	if (op == "table") return op_table(c);
	if (op == "value") return op_value(c);
	if (op == "threads") return op_threads(c);
	fprintf(stderr, "harness: unknown op %s\n", op.c_str());
	_exit(97);
}

int
main(int argc, char* argv[])
{
	if (argc < 2) {
		return 97;
	}
	scratch = argv[1];
	/* Keep our own output apart from the library's chatter */
	out_fd = dup(1);
	out_file = fdopen(out_fd, "w");
	int null = open("/dev/null", O_WRONLY);
	dup2(null, 1);
	close(null);

	string line;
	while (std::getline(std::cin, line)) {
		if (line.empty()) {
			continue;
		}
		js::value v = js::parse(line);
		auto const& c = v.as_object();
		alarm(num(c, "alarm", 20));
		auto o = dispatch(c);
		alarm(0);
		o["id"] = c.at("id");
		string const s = js::serialize(o);
		fwrite(s.data(), 1, s.size(), out_file);
		fputc('\n', out_file);
		fflush(out_file);
	}
	return 0;
}
