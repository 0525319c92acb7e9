// Configuration files (C20), logging (C21), digests and the handshake's conversions (C22).
#include "world.h"
#include <cerrno>
#include <ctime>
extern "C" {
#include "digest.h"
#include "md5.h"
#include "proxy_client.h"
}

// ------------------------------------------------------------------- C20 --
struct RefConf {
	bool ok = true;
	std::map<Bytes, Bytes> text; // settings with a value
	bool has_pw = false;
	u32 port = 8100, timeout = 0;
	std::vector<Bytes> add;
};
static const char *TEXTKEYS[] = { "BindAddress", "PublicAddress", "CallsignsDenied", "CallsignsAllowed", "RegistrationName",
				  "ExternalBindAddress", "RegistrationComment" };
static const char *KEYS[] = { "Password", "BindAddress", "PublicAddress", "CallsignsDenied", "CallsignsAllowed", "RegistrationName",
			      "ExternalBindAddress", "RegistrationComment", "Port", "ConnectionTimeout", "AdditionalExternalBindAddresses" };
static Bytes rtrim(Bytes s, const char *set)
{
	size_t e = s.find_last_not_of(set);
	return e == Bytes::npos ? "" : s.substr(0, e + 1);
}
static Bytes ltrim(Bytes s, const char *set)
{
	size_t b = s.find_first_not_of(set);
	return b == Bytes::npos ? "" : s.substr(b);
}
static bool ref_num(const Bytes &v, unsigned long long max, u32 &out)
{
	if (v.empty() || v.find_first_not_of("0123456789") != Bytes::npos)
		return false;
	Bytes d = ltrim(v, "0");
	if (d.size() > 10)
		return false;
	unsigned long long n = d.empty() ? 0 : strtoull(d.c_str(), nullptr, 10);
	if (n > max)
		return false;
	out = (u32)n;
	return true;
}
static RefConf ref_parse(const Bytes &file)
{
	RefConf c;
	size_t o = 0;
	while (o < file.size() && c.ok) {
		size_t e = file.find('\n', o);
		Bytes line = file.substr(o, e == Bytes::npos ? Bytes::npos : e - o);
		o = e == Bytes::npos ? file.size() : e + 1;
		line = ltrim(rtrim(line, " \t\r"), " \t");
		if (line.empty() || line[0] == '#' || line[0] == '=')
			continue;
		size_t q = line.find('=');
		if (q == Bytes::npos)
			continue;
		Bytes k = rtrim(line.substr(0, q), " \t"), v = ltrim(line.substr(q + 1), " \t");
		if (k == "Port")
			c.ok = ref_num(v, 65535, c.port);
		else if (k == "ConnectionTimeout")
			c.ok = ref_num(v, 4294967295ull, c.timeout);
		else if (k == "Password") {
			if (v == "notset")
				c.ok = false;
			c.has_pw = true;
			c.text[k] = v;
		} else if (k == "AdditionalExternalBindAddresses") {
			c.add.clear();
			if (!v.empty()) {
				size_t p = 0;
				for (;;) {
					size_t z = v.find(',', p);
					c.add.push_back(v.substr(p, z == Bytes::npos ? z : z - p));
					if (z == Bytes::npos)
						break;
					p = z + 1;
				}
			}
		} else
			for (auto t : TEXTKEYS)
				if (k == t) {
					if (v.empty())
						c.text.erase(k);
					else
						c.text[k] = v;
				}
	}
	if (c.ok && !c.add.empty()) {
		auto x = c.text.find("ExternalBindAddress");
		if (x == c.text.end() || x->second == "0.0.0.0")
			c.ok = false;
	}
	return c;
}
static void same(const char *key, const char *got, const RefConf &r, const Bytes &file)
{
	auto x = r.text.find(key);
	if (x == r.text.end())
		CHECK(got == nullptr, "conf-value", "%s is '%s' although it was not set by:\n%s", key, got, show(file).c_str());
	else
		CHECK(got && x->second == got, "conf-value", "%s is '%s' instead of '%s' after loading:\n%s", key, got ? got : "(null)",
		      show(x->second).c_str(), show(file).c_str());
}
static void conf_compare(const proxy_conf &c, const RefConf &r, const Bytes &file)
{
	same("Password", c.password, r, file);
	same("BindAddress", c.bind_addr, r, file);
	same("PublicAddress", c.public_addr, r, file);
	same("CallsignsDenied", c.calls_denied, r, file);
	same("CallsignsAllowed", c.calls_allowed, r, file);
	same("RegistrationName", c.reg_name, r, file);
	same("ExternalBindAddress", c.bind_addr_ext, r, file);
	same("RegistrationComment", c.reg_comment, r, file);
	CHECK(c.port == r.port, "conf-port", "the port is %u instead of %u after loading:\n%s", c.port, r.port, show(file).c_str());
	CHECK(c.connection_timeout == r.timeout, "conf-timeout", "the timeout is %u instead of %u after loading:\n%s", c.connection_timeout,
	      r.timeout, show(file).c_str());
	CHECK(c.bind_addr_ext_add_len == r.add.size(), "conf-list", "%u additional addresses instead of %zu after loading:\n%s",
	      c.bind_addr_ext_add_len, r.add.size(), show(file).c_str());
	for (size_t i = 0; i < r.add.size(); i++)
		CHECK(c.bind_addr_ext_add[i] && r.add[i] == c.bind_addr_ext_add[i], "conf-list", "additional address %zu is '%s' instead of '%s'", i,
		      c.bind_addr_ext_add[i] ? c.bind_addr_ext_add[i] : "(null)", r.add[i].c_str());
}
// Load one file on a new proxy and compare with what its lines say.
static bool conf_case(const Bytes &file)
{
	proxy_handle ph;
	memset(&ph, 0, sizeof ph);
	SS->files["/c"] = file;
	CHECK(proxy_init(&ph) >= 0, "setup", "proxy_init");
	int r = proxy_load_conf(&ph, "/c");
	RefConf ref = ref_parse(file);
	CHECK(r <= 0, "conf-result", "loading returned %d", r);
	CHECK((r == 0) == ref.ok, "conf-result", "loading returned %d, but the file is %s:\n%s", r, ref.ok ? "valid" : "invalid", show(file).c_str());
	if (ref.ok)
		conf_compare(ph.conf, ref, file);
	proxy_free(&ph);
	check_no_leaks("leak");
	count_case(mix(hash_bytes(file.data(), file.size()), ref.ok));
	return ref.ok;
}

// One setting, every way of writing its line.
SCENARIO(conf_line, 0)
{
	static const char *LEAD[] = { "", " ", "\t", " \t  " };
	static const char *MID[] = { "", " ", "\t \t" };
	static const char *TRAIL[] = { "", " ", "\t " };
	static const char *EOLS[] = { "\n", "\r\n", "" };
	int ki = choose(22, "key");
	static const char *ODD[] = { "port", "PASSWORD", "Por", "Portx", "Passwor", "Unknown", "#Port", ";Port", "\"Port\"", "[Port]", "//Port" };
	Bytes key = ki < 11 ? KEYS[ki] : ODD[ki - 11];
	std::vector<Bytes> vals = { "", "x", "a b", "a\tb", "a=b", "=", "#c", "notset", "NotSet", "notset2", "80", "\xc3\xa4\xff\x01", "%s%n", "\"q\"", "'q'", "\"", "\"q", ";x", "x;y", "x # y", "x //y", "\\n", "$HOME", "~/x", "x\\", "[x]", "%20", "&amp;", "x,y",
				    Bytes(100, 'L'), Bytes(128, 'M'), Bytes(400, 'N') };
	if (key == "Port" || key == "port")
		for (auto v : { "0", "1", "65535", "65536", "65617", "99999", "-1", "8100x", "x8100", "0x10", "8 1", "00080", "4294967297",
				"18446744073709551617", "8100.0", "000000000000000000000005200" })
			vals.push_back(v);
	if (key == "ConnectionTimeout")
		for (auto v : { "0", "5", "4294967295", "4294967296", "-1", "1.5", "99999999999999999999", "10 m", "18446744073709551620" })
			vals.push_back(v);
	if (key == "AdditionalExternalBindAddresses")
		vals = { "", "10.0.0.2", "10.0.0.2,10.0.0.3", "a,b,c,d", Bytes(200, 'q') + "," + Bytes(130, 'r') };
	Bytes v = vals[choose((int)vals.size(), "value")];
	int lead = choose(4, "lead");
	int oks = 0;
	for (auto m1 : MID)
		for (auto m2 : MID)
			for (auto t : TRAIL)
				for (auto e : EOLS) {
					Bytes f = Bytes(LEAD[lead]) + key + m1 + "=" + m2 + v + t + e;
					oks += conf_case(f);
					// with other settings around it
					if (*e)
						oks += conf_case("ExternalBindAddress=10.0.0.1\r\n\n # comment = x\n" + f + "Password=last\n");
				}
	outcome("%s %d", key.c_str(), oks);
}

// Every sequence of tokens up to a length.
SCENARIO(conf_tokens, 0, true, 400000)
{
	static const char *TOK[] = { "Port", "Password", "PublicAddress", "=", " ", "\t", "#", "\n", "\r\n", "80", "notset", "x", "0" };
	const int NT = 13;
	int len = g_arg ? g_arg : 4;
	int a = choose(NT, "t0"), b = choose(NT, "t1");
	int n = 1;
	for (int i = 2; i < len; i++)
		n *= NT;
	int oks = 0;
	// the last level is enumerated here, the others by choices when there are many
	int c = len > 4 ? choose(NT, "t2") : -1;
	if (c >= 0)
		n /= NT;
	for (int k = 0; k < n; k++) {
		Bytes f = Bytes(TOK[a]) + TOK[b];
		if (c >= 0)
			f += TOK[c];
		int x = k;
		for (int i = c >= 0 ? 3 : 2; i < len; i++, x /= NT)
			f += TOK[x % NT];
		oks += conf_case(f);
	}
	outcome("%d", oks);
}

// Lines of every length, around the sizes in which they are read.
SCENARIO(conf_length, 0)
{
	int base = choose(8, "block") * 100;
	bool two = choose(2, "second line");
	for (int n = base + 1; n <= base + 100; n++)
		for (auto e : { "\n", "\r\n", "" }) {
			Bytes val;
			for (int i = 0; i < n; i++)
				val.push_back((char)('A' + i % 26));
			Bytes f = "Password=" + val + e;
			if (two && *e)
				f += "RegistrationName=" + val + val + e;
			conf_case(f);
			conf_case("#" + val + "=" + e + (*e ? "Port=77" : ""));
		}
	outcome("%d", base);
}

// Repeated settings: later lines replace earlier ones.
SCENARIO(conf_repeat, 0)
{
	int k1 = choose(11, "first"), k2 = choose(11, "second");
	auto vals = [](int k) -> std::vector<Bytes> {
		if (k == 8)
			return { "1", "65535", "x" };
		if (k == 9)
			return { "1", "0", "x" };
		if (k == 10)
			return { "10.0.0.2", "10.0.0.3,10.0.0.4,10.0.0.5", "" };
		return { "one", "somewhat longer", "" };
	};
	int oks = 0;
	for (auto &a : vals(k1))
		for (auto &b : vals(k2))
			for (auto &c : vals(k1))
				for (auto pre : { "", "ExternalBindAddress=10.0.0.1\n", "ExternalBindAddress=0.0.0.0\n" })
					oks += conf_case(Bytes(pre) + KEYS[k1] + "=" + a + "\n" + KEYS[k2] + "=" + b + "\n" + KEYS[k1] + "=" + c + "\n");
	outcome("%d", oks);
}

// The documented sample file, with every setting changed in turn or left out, and every pair of them.
static const char *SAMPLE[][2] = {
	{ "Password", "notset" }, { "Port", "8100" }, { "ConnectionTimeout", "0" }, { "BindAddress", "0.0.0.0" }, { "ExternalBindAddress", "0.0.0.0" },
	{ "PublicAddress", "" }, { "RegistrationName", "" }, { "RegistrationComment", "" }, { "CallsignsDenied", "" }, { "CallsignsAllowed", "" },
	{ "AdditionalExternalBindAddresses", "" },
};
static const char *SETTO[][3] = {
	{ "secret phrase", "PUBLIC", "\"a\" # b" }, { "65535", "0", "443" }, { "4294967295", "1", "30" }, { "127.0.0.1", "10.0.0.1", "192.168.100.200" },
	{ "10.0.0.1", "", "0.0.0.0" }, { "example.org", "1.2.3.4", "a=b" }, { "W1AW", "K1RFD-R, Main St.", "; x" }, { "In \"Conn\" & more", "a=b=c", "# 1" },
	{ ".*-L$|.*-R$", "#.*", "^\\s*$" }, { "K1RFD|AK8V", "^W[0-9]=", "(?i)x,y" }, { "10.0.0.2", "10.0.0.2,10.0.0.3", "10.0.0.2,10.0.0.3,10.0.0.4" },
};
SCENARIO(conf_sample, 0)
{
	int i = choose(11, "setting"), vi = choose(5, "value"); // left out, as in the sample, or changed
	int mark = choose(4, "blanks");
	const char *sep = mark == 0 ? "=" : mark == 1 ? " = " : mark == 2 ? "\t=  " : "= \t", *end = mark == 3 ? " \r\n" : mark == 1 ? "  \n" : "\n";
	int oks = 0;
	for (int j = 0; j < 11; j++)
		for (int vj = 0; vj < 5; vj++) {
			Bytes f = "# Sample EchoLink Proxy Configuration File\n\n# You must change the password to something besides \"notset\".\n";
			for (int k = 0; k < 11; k++) {
				int v = k == i ? vi : k == j ? vj : k == 0 ? 2 : 1;
				if (v == 0)
					f += Bytes("#") + SAMPLE[k][0] + sep + SAMPLE[k][1] + end;
				else
					f += Bytes(k % 3 ? "" : "\n#   This = that:\n \t\n") + SAMPLE[k][0] + sep + (v == 1 ? SAMPLE[k][1] : SETTO[k][v - 2]) + end;
			}
			oks += conf_case(f);
		}
	outcome("%d %d %d", i, vi, oks);
}

// Very long values, lists and files.
SCENARIO(conf_long, 0, false, 60000000)
{
	int k = choose(12, "setting");
	static const int LENS[] = { 250, 255, 256, 257, 300, 1023, 1024, 1025, 4096, 5000, 32768, 65535, 65536, 70000 };
	int li = choose(14, "length");
	int n = LENS[li];
	if (k == 8)
		k = 0;
	if (k == 9) { // a file of many lines
		Bytes f;
		for (int i = 0; i < n; i++)
			f += i % 7 == 3 ? Bytes("Port=") + std::to_string(i % 60000) + "\n" : i % 7 == 5 ? "#x\n" : "\n";
		conf_case(f + "Password=p\n");
	} else if (k == 10) { // a list of many addresses
		Bytes f = "Password=p\nExternalBindAddress=10.0.0.1\nAdditionalExternalBindAddresses=";
		for (int i = 0; i < n && i < 65535; i++)
			f += (i ? ",10.1." : "10.1.") + std::to_string(i / 256) + "." + std::to_string(i % 256);
		conf_case(f + "\n");
	} else if (k == 11) { // a list of long addresses
		Bytes f = "Password=p\nExternalBindAddress=10.0.0.1\nAdditionalExternalBindAddresses=";
		for (int i = 0; i < 3; i++)
			f += (i ? "," : "") + Bytes(n, 'a' + i);
		conf_case(f + "\n");
	} else {
		Bytes v;
		for (int i = 0; i < n; i++)
			v.push_back((char)('A' + i % 59));
		conf_case(Bytes(KEYS[k]) + "=" + v + "\nPort=1\n");
		conf_case("Port=1\n" + Bytes(n, ' ') + KEYS[k] + Bytes(n, '\t') + "=" + Bytes(n, ' ') + v + Bytes(n, ' '));
		conf_case("Port=1\n" + v + "=1\n" + KEYS[k] + v + "=x\n#" + v + "\n");
	}
	outcome("%d %d", k, n);
}

// Lists of additional addresses.
SCENARIO(conf_list, 0)
{
	static const char *EL[] = { "10.0.0.2", "10.0.0.3", "host.example", "z" };
	int n = 1 + choose(5, "count");
	int tot = 1;
	for (int i = 0; i < n; i++)
		tot *= 4;
	for (int k = 0; k < tot; k++) {
		Bytes l;
		int x = k;
		for (int i = 0; i < n; i++, x /= 4)
			l += Bytes(i ? "," : "") + EL[x % 4];
		conf_case("Password=p\nExternalBindAddress=10.0.0.1\nAdditionalExternalBindAddresses=" + l + "\n");
	}
	outcome("%d", n);
}

// A failure while reading makes loading fail, leaves nothing behind, and loading can be repeated.
SCENARIO(conf_readerr, F_FILE | F_MALLOC)
{
	Bytes f = "# a comment which is a little bit longer than others, to fill a block of the file\nPassword=secret\nPort=5\n"
		  "RegistrationName=somebody\nRegistrationComment=some where\nExternalBindAddress=10.0.0.1\n"
		  "AdditionalExternalBindAddresses=10.0.0.2,10.0.0.3\nPublicAddress=1.2.3.4\nCallsignsDenied=x\nCallsignsAllowed=y\n"
		  "BindAddress=127.0.0.1\nConnectionTimeout=7\n# end\n";
	proxy_handle ph;
	memset(&ph, 0, sizeof ph);
	u32 flt = g_faults;
	g_faults = 0;
	SS->files["/c"] = f;
	CHECK(proxy_init(&ph) >= 0, "setup", "proxy_init");
	g_faults = flt;
	int fails = 0, r;
	for (;;) {
		int n0 = faults_taken();
		r = proxy_load_conf(&ph, "/c");
		bool hit = faults_taken() > n0;
		CHECK(!hit || r < 0, "conf-readerr", "loading succeeded although it could not be carried out");
		CHECK(hit || r == 0, "conf-readerr", "loading failed (%d) without reason", r);
		CHECK(live_files() == 0, "leak-file", "the file is still open");
		if (r == 0)
			break;
		fails++;
	}
	conf_compare(ph.conf, ref_parse(f), f);
	g_faults = 0;
	CHECK(proxy_load_conf(&ph, "/none") < 0, "conf-missing", "loading a file which does not exist succeeded");
	proxy_free(&ph);
	check_no_leaks("leak");
	outcome("%d", fails);
}

// ------------------------------------------------------------------- C21 --
static std::vector<LogLine> taken()
{
	std::vector<LogLine> r;
	if (SS->log)
		r = *SS->log, SS->log->clear();
	return r;
}
static Bytes stamp(u64 when = 0)
{
	time_t t = (when ? when : vnow()) / 1000000000ull;
	struct tm tm;
	gmtime_r(&t, &tm);
	char b[32];
	strftime(b, sizeof b, "%b %d %H:%M:%S", &tm);
	return b;
}
struct LogRef {
	int medium = 0; // 0 none, 1 console, 3 file, 4 syslog
	Bytes file;
	int level = LOG_LEVEL_INFO;
};
static void log_expect(const LogRef &ref, int lvl, const Bytes &msg, const Bytes &hist)
{
	std::vector<LogLine> got = taken();
	bool want = ref.medium != 0 && lvl <= ref.level;
	Bytes text;
	for (auto &l : got) {
		int m = l.medium == 2 ? 1 : l.medium;
		CHECK(m == ref.medium, "log-place", "a message went to destination %d instead of %d after %s", m, ref.medium, hist.c_str());
		CHECK(m != 3 || l.target == ref.file, "log-place", "a message went to file %s instead of %s after %s", l.target.c_str(),
		      ref.file.c_str(), hist.c_str());
		CHECK(m != 4 || l.target == "open", "log-place", "a message went to the system log which is not open after %s", hist.c_str());
		if (m == 4) {
			CHECK(got.size() == 1, "log-once", "%zu system log messages for one", got.size());
			static const int PRI[] = { 2, 3, 4, 6, 7 };
			CHECK((l.prio & 7) == PRI[lvl], "log-severity", "severity %d logged as %d", lvl, l.prio & 7);
		}
		text += l.text;
	}
	CHECK(want == !got.empty(), "log-level", "a message of severity %d was %s with level %d after %s", lvl, got.empty() ? "dropped" : "written",
	      ref.level, hist.c_str());
	if (!want)
		return;
	Bytes exp = ref.medium == 3 ? stamp() + " : " + msg : msg;
	CHECK(text == exp, "log-text", "logged '%s' instead of '%s' after %s", show(text).c_str(), show(exp).c_str(), hist.c_str());
}

SCENARIO(log_history, 0)
{
	int depth = g_arg ? g_arg : 4;
	SS->capture = true;
	SS->files["/dir/b"] = "earlier\n";
	SS->file_errs["/bad"] = EACCES;
	proxy_handle ph;
	memset(&ph, 0, sizeof ph);
	CHECK(proxy_init(&ph) >= 0, "setup", "init");
	LogRef ref;
	Bytes hist = "start";
	std::map<Bytes, Bytes> content = { { "/dir/b", "earlier\n" } };
	auto probe = [&] {
		for (int lvl = 0; lvl < 5; lvl++) {
			proxy_log(&ph, (LOG_LEVEL)lvl, "message %d of %s%%\n", lvl, "test");
			Bytes msg = "message " + std::to_string(lvl) + " of test%\n";
			if (ref.medium == 3 && lvl <= ref.level)
				content[ref.file] += stamp() + " : " + msg;
			log_expect(ref, lvl, msg, hist);
			vadvance(1100000000ull);
		}
	};
	taken();
	probe();
	for (int i = 0; i < depth; i++) {
		int op = choose(12, "op");
		int r = 0;
		switch (op) {
		case 0:
			r = proxy_log_select_medium(&ph, LOG_MEDIUM_NONE, nullptr);
			ref.medium = 0;
			break;
		case 1:
			r = proxy_log_select_medium(&ph, LOG_MEDIUM_STDOUT, nullptr);
			ref.medium = 1;
			break;
		case 2:
		case 3:
			ref.file = op == 2 ? "/dir/a" : "/dir/b";
			r = proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, ref.file.c_str());
			ref.medium = 3;
			content[ref.file];
			break;
		case 4:
			r = proxy_log_select_medium(&ph, LOG_MEDIUM_SYSLOG, nullptr);
			ref.medium = 4;
			break;
		case 5:
		case 6:
			r = proxy_log_select_medium(&ph, op == 5 ? LOG_MEDIUM_FILE : LOG_MEDIUM_EVENTLOG, op == 5 ? "/bad" : nullptr);
			CHECK(r < 0, "log-select", "selecting a destination which cannot be opened returned %d after %s", r, hist.c_str());
			r = 0;
			break;
		default:
			ref.level = op - 7;
			proxy_log_level(&ph, (LOG_LEVEL)(op - 7));
		}
		hist += "," + std::to_string(op);
		CHECK(r == 0, "log-select", "selecting returned %d after %s", r, hist.c_str());
		// selecting a destination may announce itself there, and nowhere else
		for (auto &l : taken()) {
			int m = l.medium == 2 ? 1 : l.medium;
			CHECK(m == ref.medium && (m != 3 || l.target == ref.file), "log-place", "selecting wrote to destination %d after %s", m, hist.c_str());
			CHECK(op < 5 || op > 6, "log-place", "failing to select a destination wrote something after %s", hist.c_str());
			if (m == 3)
				content[ref.file] += l.text;
		}
		CHECK(live_files() == (ref.medium == 3), "log-close", "%d log files open after %s", live_files(), hist.c_str());
		CHECK(SS->syslog_open == (ref.medium == 4), "log-close", "the system log is %s after %s", SS->syslog_open ? "open" : "closed", hist.c_str());
		probe();
	}
	proxy_free(&ph);
	CHECK(!SS->syslog_open, "log-close", "the system log is open after freeing, %s", hist.c_str());
	for (auto &l : taken()) {
		int m = l.medium == 2 ? 1 : l.medium;
		CHECK(m == ref.medium && (m != 3 || l.target == ref.file), "log-place", "freeing wrote to destination %d after %s", m, hist.c_str());
		if (m == 3)
			content[ref.file] += l.text;
	}
	check_no_leaks("leak");
	for (auto &p : content)
		CHECK(SS->files[p.first] == p.second, "log-file", "the content of %s is not what was logged there after %s", p.first.c_str(), hist.c_str());
	count_case(hash_str(hist.c_str()));
	outcome("%d %d", ref.medium, ref.level);
}

// What the proxy itself logs during its life goes to the selected destination too.
SCENARIO(log_proxy, 0)
{
	static const LOG_MEDIUM MED[] = { LOG_MEDIUM_STDOUT, LOG_MEDIUM_FILE, LOG_MEDIUM_SYSLOG, LOG_MEDIUM_NONE };
	static const int OUT[] = { 1, 3, 4, 0 };
	SS->capture = true;
	World w;
	Cfg c;
	c.slots = 2;
	w.cfg = c;
	SS->files["/elp.conf"] = c.text();
	CHECK(proxy_init(&w.ph) == 0, "setup", "init");
	int first = choose(4, "destination"), level = choose(5, "level"), second = choose(5, "another destination"), when = choose(4, "when");
	Bytes hist = std::to_string(first) + " level " + std::to_string(level);
	int cur = 1; // opening selects the console if nothing else is
	Bytes file;
	size_t n = 0;
	auto take = [&](const char *step) {
		bool announce = !strcmp(step, "selecting"); // may identify the program whatever the level
		for (auto &l : taken()) {
			int m = l.medium == 2 ? 1 : l.medium;
			CHECK(m == cur, "log-place", "%s wrote to destination %d instead of %d, after %s: %s", step, m, cur, hist.c_str(), l.text.c_str());
			if (m == 3) {
				CHECK(l.target == file, "log-place", "%s wrote to file %s instead of %s", step, l.target.c_str(), file.c_str());
			}
			static const int LIM[] = { 2, 3, 4, 6, 7 };
			CHECK(m != 4 || (l.prio & 7) <= LIM[level] || announce, "log-level", "%s wrote a message of priority %d with level %d: %s", step, l.prio & 7, level,
			      l.text.c_str());
			n++;
		}
	};
	auto select = [&](int k, const char *path) {
		file = path;
		cur = OUT[k];
		CHECK(proxy_log_select_medium(&w.ph, MED[k], k == 1 ? path : nullptr) == 0, "log-select", "selecting %d failed", k);
		hist += ", " + std::to_string(k);
		take("selecting");
	};
	taken();
	if (first < 3)
		select(first, "/a");
	else
		cur = 0;
	proxy_log_level(&w.ph, (LOG_LEVEL)level);
	taken();
	CHECK(proxy_load_conf(&w.ph, "/elp.conf") == 0, "setup", "conf");
	take("loading");
	if (first == 3)
		cur = 1;
	CHECK(proxy_open(&w.ph) == 0, "setup", "open");
	take("opening");
	if (when == 0 && second < 4)
		select(second, "/b");
	CHECK(proxy_start(&w.ph) == 0, "setup", "start");
	take("starting");
	if (when == 1 && second < 4)
		select(second, "/b");
	w.run_loop();
	quiesce();
	{
		Client a(w, "203.0.113.5", 50001);
		CHECK(admit(a, "W1AW") >= 0, "setup", "not admitted");
		quiesce();
		take("serving");
		if (when == 2 && second < 4)
			select(second, "/b");
		a.close();
		quiesce();
		take("the end of a session");
	}
	if (when == 3 && second < 4)
		select(second, "/b");
	n = 0;
	int here = cur;
	Client b(w, "203.0.113.6", 50002);
	CHECK(admit(b, "K2B") >= 0, "setup", "not admitted");
	b.close();
	quiesce();
	take("serving");
	CHECK(!here || level < LOG_LEVEL_DEBUG || n > 0, "log-level", "a session logged nothing at the debug level after %s", hist.c_str());
	CHECK(level > LOG_LEVEL_ERROR || n == 0, "log-level", "a normal session logged %zu messages at the error level", n);
	proxy_shutdown(&w.ph);
	join_fiber(w.loop);
	w.loop = nullptr;
	proxy_close(&w.ph);
	take("closing");
	cur = 0;
	CHECK(live_files() == 0 && !SS->syslog_open, "log-close", "the log is open after closing");
	proxy_free(&w.ph);
	take("freeing");
	check_no_leaks("leak");
	count_case(hash_str(hist.c_str()));
}

// Message texts of every length reach every destination completely.
SCENARIO(log_text, 0)
{
	SS->capture = true;
	proxy_handle ph;
	memset(&ph, 0, sizeof ph);
	CHECK(proxy_init(&ph) >= 0, "setup", "init");
	LogRef ref;
	int m = choose(3, "medium");
	ref.medium = m == 0 ? 1 : m == 1 ? 3 : 4;
	ref.file = "/f";
	proxy_log_select_medium(&ph, m == 0 ? LOG_MEDIUM_STDOUT : m == 1 ? LOG_MEDIUM_FILE : LOG_MEDIUM_SYSLOG, "/f");
	taken();
	int lvl = choose(4, "severity");
	for (int n : { 0, 1, 2, 79, 80, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 5000, 8191, 8192, 20000, 65535, 65536, 70000 })
		for (int nl = 0; nl < 2; nl++) {
			Bytes t;
			for (int i = 0; i < n; i++)
				t.push_back((char)(33 + i % 90));
			proxy_log(&ph, (LOG_LEVEL)lvl, nl ? "%s\n" : "%s", t.c_str());
			if (nl || n)
				log_expect(ref, lvl, t + (nl ? "\n" : ""), "one message of " + std::to_string(n));
			else
				taken();
			count_case(n * 2 + nl);
		}
	for (auto f : { "100%%\n", "%%s\n", "a\tb\n\nc\n" }) {
		proxy_log(&ph, (LOG_LEVEL)lvl, f);
		char b[64];
		snprintf(b, sizeof b, f);
		log_expect(ref, lvl, b, f);
	}
	proxy_free(&ph);
	check_no_leaks("leak");
	outcome("%d %d", m, lvl);
}

// Threads logging at the same time: every message arrives once and whole.
SCENARIO(log_threads, 0)
{
	SS->capture = true;
	proxy_handle ph;
	memset(&ph, 0, sizeof ph);
	CHECK(proxy_init(&ph) >= 0, "setup", "init");
	int m = choose(3, "medium");
	proxy_log_select_medium(&ph, m == 0 ? LOG_MEDIUM_STDOUT : m == 1 ? LOG_MEDIUM_FILE : LOG_MEDIUM_SYSLOG, "/f");
	taken();
	SS->stdio_points = true;
	Fiber *f[2];
	u64 from[2][2], to[2][2]; // when each message was logged
	for (int i = 0; i < 2; i++)
		f[i] = spawn("logger", FK_SUT, [&, i] {
			for (int k = 0; k < 2; k++) {
				vadvance(1000000000ull);
				touch(g_clock_obj, 0x10c);
				from[i][k] = vnow();
				proxy_log(&ph, k ? LOG_LEVEL_WARN : LOG_LEVEL_FATAL, "thread %d message %d\n", i, k);
				to[i][k] = vnow();
			}
		});
	for (int i = 0; i < 2; i++)
		join_fiber(f[i]);
	SS->stdio_points = false;
	Bytes all;
	for (auto &l : taken())
		all += l.text;
	std::map<Bytes, int> lines;
	int last[2] = { -1, -1 };
	size_t o = 0;
	while (o < all.size()) {
		size_t e = all.find('\n', o);
		CHECK(e != Bytes::npos, "log-mixed", "the last line is incomplete: '%s'", show(all).c_str());
		Bytes line = all.substr(o, e - o);
		o = e + 1;
		Bytes st;
		if (m == 1) {
			size_t len = stamp().size();
			CHECK(line.size() > len + 3 && line.substr(len, 3) == " : ", "log-mixed", "messages of different threads are mixed: '%s'", show(all).c_str());
			st = line.substr(0, len);
			line = line.substr(len + 3);
		}
		int i, k, n = 0;
		CHECK(sscanf(line.c_str(), "thread %d message %d%n", &i, &k, &n) == 2 && n == (int)line.size() && i >= 0 && i < 2, "log-mixed",
		      "messages of different threads are mixed: '%s'", show(all).c_str());
		CHECK(k == last[i] + 1, "log-order", "the messages of a thread are out of order");
		if (m == 1) {
			bool ok = false;
			for (u64 t = from[i][k]; t <= to[i][k]; t += 1000000000ull)
				ok |= st == stamp(t);
			CHECK(ok, "log-time", "message %d of thread %d is dated %s, but was logged from %s to %s", k, i, st.c_str(), stamp(from[i][k]).c_str(),
			      stamp(to[i][k]).c_str());
		}
		last[i] = k;
	}
	CHECK(last[0] == 1 && last[1] == 1, "log-once", "messages are missing");
	proxy_free(&ph);
	check_no_leaks("leak");
	outcome("%d", m);
}

// More messages than 16 bits can count, also with a change of the destination after each.
SCENARIO(log_many, 0, false, 100000000)
{
	SS->capture = true;
	proxy_handle ph;
	memset(&ph, 0, sizeof ph);
	CHECK(proxy_init(&ph) >= 0, "setup", "init");
	int m = choose(3, "medium"), again = choose(2, "selecting each time");
	g_focus = false;
	static const LOG_MEDIUM MED[] = { LOG_MEDIUM_STDOUT, LOG_MEDIUM_FILE, LOG_MEDIUM_SYSLOG };
	CHECK(proxy_log_select_medium(&ph, MED[m], m == 1 ? "/f" : nullptr) == 0, "log-select", "selecting");
	taken();
	for (int i = 0; i < 66000; i++) {
		if (again) {
			CHECK(proxy_log_select_medium(&ph, MED[m], m == 1 ? "/f" : nullptr) == 0, "log-select", "selecting, time %d", i);
			taken();
		}
		Bytes t = "message " + std::to_string(i) + "\n";
		proxy_log(&ph, LOG_LEVEL_WARN, "message %d\n", i);
		Bytes got;
		for (auto &l : taken())
			got += l.text;
		CHECK(got == (m == 1 ? stamp() + " : " : Bytes()) + t, "log-content", "message %d was logged as '%s'", i, show(got).c_str());
	}
	proxy_free(&ph);
	CHECK(live_files() == 0 && !SS->syslog_open, "log-close", "the log is open after freeing");
	check_no_leaks("leak");
	count_case(m * 2 + again);
	outcome("%d %d", m, again);
}

// ------------------------------------------------------------------- C22 --
// MD5 of every length, and of every split of the input.
SCENARIO(md5_length, 0)
{
	int blk = choose(32, "block"), pat = choose(4, "pattern");
	for (int n = blk * 33; n < blk * 33 + 33; n++) {
		Bytes d;
		for (int i = 0; i < n; i++)
			d.push_back(pat == 0 ? 0 : pat == 1 ? (char)0xff : pat == 2 ? (char)(i * 37 + n) : (char)(i ^ (i >> 8) ^ 0x80));
		std::vector<u8> exact(d.begin(), d.end()); // reading past the end is detected
		u8 r[16];
		digest_get(exact.data(), n, r);
		CHECK(Bytes((char *)r, 16) == ref::md5(d), "md5", "the digest of %d bytes differs from MD5", n);
		count_case(n * 4 + pat);
	}
	outcome("%d", blk);
}
SCENARIO(md5_split, 0)
{
	int n = choose(200, "length");
	Bytes d;
	for (int i = 0; i < n; i++)
		d.push_back((char)(i * 91 + 5));
	Bytes want = ref::md5(d);
	static const int E[] = { 0, 1, 55, 56, 63, 64, 65, 119, 127, 128, 129 };
	auto run = [&](int a, int b) {
		MD5_CTX c;
		u8 r[16];
		MD5_Init(&c);
		MD5_Update(&c, d.data(), a);
		MD5_Update(&c, d.data() + a, b - a);
		MD5_Update(&c, d.data() + b, n - b);
		MD5_Final(r, &c);
		CHECK(Bytes((char *)r, 16) == want, "md5-split", "the digest of %d bytes differs when split at %d and %d", n, a, b);
		count_case((n * 300 + a) * 300 + b);
	};
	for (int a = 0; a <= n; a++)
		run(a, a);
	for (int a : E)
		for (int b : E)
			if (a <= b && b <= n)
				run(a, b);
	outcome("%d", n % 64);
}

// Hexadecimal conversions of 32-bit numbers, both ways.
SCENARIO(hex_convert, 0)
{
	int hi = choose(256, "high byte");
	auto one = [&](u32 v) {
		char s[10];
		memset(s, '?', sizeof s);
		digest_to_hex32(v, s);
		static const char D[] = "0123456789abcdef";
		for (int i = 0; i < 8; i++)
			if (s[i] != D[v >> (28 - 4 * i) & 15])
				CHECK(false, "hex32", "%08x is written as %.8s", v, s);
		CHECK(s[8] == '?', "hex32", "wrote more than eight characters");
		if (hex32_to_digest(s) != v)
			CHECK(false, "hex32-inverse", "%.8s is read as %08x", s, hex32_to_digest(s));
		for (int i = 0; i < 8; i++)
			if (s[i] >= 'a')
				s[i] -= 32;
		if (hex32_to_digest(s) != v)
			CHECK(false, "hex32-inverse", "%.8s is read as %08x", s, hex32_to_digest(s));
	};
	u32 n = g_arg ? 1u << 24 : 1u << 14;
	for (u32 k = 0; k < n; k++)
		one(g_arg ? (u32)hi << 24 | k : (u32)hi << 24 | (k & 0xff) << (k >> 8 & 7) * 2 | (k >> 11) * 0x10203);
	for (int p = 0; p < 16; p++) {
		u8 d[16];
		char s[36];
		for (int i = 0; i < 16; i++)
			d[i] = (u8)(i == p ? hi : i * 17 + p);
		memset(s, '?', sizeof s);
		digest_to_str(d, s);
		CHECK(Bytes(s, 32) == ref::hex(Bytes((char *)d, 16), true) && s[32] == 0 && s[33] == '?', "digest-str", "digest written as '%.34s'", s);
	}
	count_case(hi);
	outcome("%d", hi);
}

static const u32 NONCES[] = { 0, 1, 0xa, 0x0a0d0a0d, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 0xabcdef01, 0x00ff00ff, 0x0fedcba9 };
static Bytes passwords(int i)
{
	switch (i) {
	case 0: return "";
	case 1: return "PUBLIC";
	case 2: return "public";
	case 3: return "MixedCase123";
	case 4: return "az AZ @[`{";
	case 5: return "\xe4\xf6\xfc\xdf\x80\xff";
	case 6: return "with space and = and # and ,";
	case 7: return Bytes(55, 'q');
	case 8: return Bytes(56, 'r');
	case 9: return Bytes(64, 's');
	case 10: return Bytes(200, 't');
	case 11: return "zyxwvutsrqponmlkjihgfedcba";
	default: return Bytes(1000, 'u');
	}
}

SCENARIO(response, 0)
{
	static const size_t LONG[] = { 127, 128, 255, 256, 257, 1000, 4096, 65527, 65528, 65535, 65536, 70000 };
	int i = choose(13 + 256 + 80 + 12, "password");
	Bytes pw = i >= 349 ? Bytes(LONG[i - 349], 'm') + "Y" : i < 13 ? passwords(i) : i < 269 ? Bytes("p") + (char)(i - 13) : Bytes(i - 269, 'k') + "Z";
	if (i == 13)
		pw = "p";
	for (u32 n : NONCES) {
		u8 r[16];
		std::vector<char> exact(pw.begin(), pw.end());
		exact.push_back(0);
		CHECK(get_password_response(n, exact.data(), r) == 0, "response", "computing the response failed");
		CHECK(Bytes((char *)r, 16) == ref::pw_response(pw, ref::hex8(n)), "response", "the response to %08x for '%s' is wrong", n, show(pw).c_str());
		CHECK(Bytes(exact.data()) == pw, "response", "the password was modified");
		count_case(mix(hash_bytes(pw.data(), pw.size()), n));
	}
	check_no_leaks("leak");
	outcome("%d", i);
}

// The bundled client against the proxy.
SCENARIO(interop, F_SHORT_RECV | F_SHORT_SEND)
{
	static const char *CALLS[] = { "N", "N0CALL", "W1AW-L", "*ECHO*", "ABCDEFGHIJ" };
	Cfg c;
	int pi = choose(13, "password");
	c.password = passwords(pi);
	Bytes call = CALLS[choose(5, "callsign")];
	bool denied = choose(2, "denied");
	for (char x : call)
		(denied ? c.denied : c.allowed) += Bytes(x == '*' ? "\\*" : "") + x;
	(denied ? c.denied : c.allowed) = "^" + (denied ? c.denied : c.allowed) + "$";
	u32 n = NONCES[choose(11, "nonce")];
	bool wrong = choose(2, "wrong");
	World w;
	w.up(c);
	SS->rand_script.assign(1, n);
	SS->rand_i = 0;
	SS->rand_given.clear();
	proxy_client_handle ch;
	memset(&ch, 0, sizeof ch);
	Bytes pw = wrong ? c.password + "x" : c.password;
	std::vector<char> b1(call.begin(), call.end()), b2(pw.begin(), pw.end());
	b1.push_back(0);
	b2.push_back(0);
	ch.host_addr = (char *)"127.0.0.1";
	ch.host_port = (char *)"8100";
	ch.callsign = b1.data();
	ch.password = pi == 1 && !wrong ? nullptr : b2.data(); // no password means PUBLIC
	CHECK(proxy_client_init(&ch) == 0, "client", "init");
	CHECK(proxy_client_connect(&ch) == 0, "client", "connect");
	quiesce();
	wrong |= denied;
	CHECK(slot_bound(0) == !wrong, "interop", "the client was %s (password '%s', nonce %08x, callsign %s)", wrong ? "admitted" : "refused",
	      show(pw).c_str(), n, call.c_str());
	bool again = choose(2, "again");
	if (choose(2, "disconnect") || again) {
		proxy_client_disconnect(&ch);
		quiesce();
		CHECK(!slot_bound(0), "interop", "the session outlives the connection of the client");
	}
	if (again) {
		CHECK(proxy_client_connect(&ch) == 0, "client", "connecting again");
		quiesce();
		CHECK(slot_bound(0) == !wrong, "interop", "the client, connecting again, was %s", wrong ? "admitted" : "refused");
	}
	proxy_client_free(&ch);
	quiesce();
	CHECK(!slot_bound(0), "interop", "the session outlives the client");
	w.down();
	outcome("%d %d", pi, wrong);
}

// The bundled client when something fails: the failing call says so, nothing is lost, and the call can be repeated.
SCENARIO(client_fault, F_MALLOC | F_PTHREAD | F_SOCK | F_CONNECT | F_RECVERR | F_SENDERR | F_SHORT_SEND | F_SHORT_RECV, false)
{
	g_focus = false;
	Sock *l = peer_listen("198.51.100.7", 8100);
	Bytes seen;
	int conns = 0;
	spawn("proxy", FK_PEER, [&] {
		for (;;) {
			Sock *s = peer_accept(l);
			if (!s)
				return;
			conns++;
			seen.clear();
			peer_send(s, "0badcafe");
			for (;;) {
				Bytes x = peer_recv_some(s);
				if (x.empty())
					break;
				seen += x;
			}
			peer_close(s);
		}
	});
	proxy_client_handle ch;
	memset(&ch, 0, sizeof ch);
	char host[] = "198.51.100.7", port[] = "8100", call[] = "N0CALL", pass[] = "secret";
	ch.host_addr = host;
	ch.host_port = port;
	ch.callsign = call;
	ch.password = pass;
	int tries = 0, how = choose(2, "give up");
	while (proxy_client_init(&ch) < 0) {
		tries++;
		CHECK(tries <= faults_taken(), "client-fault", "initializing fails although nothing failed");
		if (how) {
			check_no_leaks("leak");
			proxy_client_free(&ch);
			check_no_leaks("leak");
			outcome("init");
			return;
		}
	}
	while (proxy_client_connect(&ch) < 0) {
		tries++;
		CHECK(tries <= faults_taken(), "client-fault", "connecting fails although nothing failed");
		quiesce();
		CHECK(live_socks() == 0, "leak-socket", "connecting failed, but left %s", describe_live_socks().c_str());
		if (how)
			break;
	}
	quiesce();
	if (!how || live_socks()) {
		Bytes want = "N0CALL\n" + pw_response("secret", "0badcafe");
		CHECK(seen == want || faults_taken(), "client-bytes", "the client sent %s", show(seen).c_str());
		CHECK(seen == want.substr(0, seen.size()), "client-bytes", "the client sent %s", show(seen).c_str());
	}
	if (choose(2, "disconnect"))
		proxy_client_disconnect(&ch);
	proxy_client_free(&ch);
	quiesce();
	CHECK(live_socks() == 0, "leak-socket", "freed, but left %s", describe_live_socks().c_str());
	check_no_leaks("leak");
	outcome("%d %d", tries, conns);
}

// ------------------------------------------------------------------- C26 --
// A scripted server: what it received, and when.
struct Srv {
	Sock *l = nullptr, *s = nullptr;
	Bytes rx;
	void listen() { l = peer_listen("198.51.100.7", 8100); }
	bool accept()
	{
		s = peer_accept(l);
		return s != nullptr;
	}
	const Bytes &take()
	{
		if (s)
			rx += peer_drain(s);
		return rx;
	}
};
struct Lib {
	proxy_client_handle ch;
	Bytes call, pw;
	bool has_call, has_pw;
	char host[16] = "198.51.100.7", port[8] = "8100";
	int ret = 99;
	Fiber *f = nullptr;
	Lib(const char *c, const char *p) : call(c ? c : ""), pw(p ? p : ""), has_call(c), has_pw(p)
	{
		memset(&ch, 0, sizeof ch);
		ch.host_addr = host;
		ch.host_port = port;
		ch.callsign = c ? &call[0] : nullptr;
		ch.password = p ? &pw[0] : nullptr;
		CHECK(proxy_client_init(&ch) == 0, "client", "init");
	}
	void start()
	{
		ret = 99;
		f = spawn("user", FK_SUT, [this] {
			ret = proxy_client_connect(&ch);
			CHECK(ret <= 0, "client", "connecting returned %d", ret);
		});
	}
	Bytes expect(const Bytes &nonce) const { return call + "\n" + pw_response(has_pw ? pw : "PUBLIC", nonce); }
};
#define K50 "KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK"
static const char *LCALLS[] = { "N0CALL", nullptr, "", "ABCDEFGHIJ", "a\xff b", "ABCDEFGHIJK", K50 K50 K50 K50 K50 K50 "Z" };
static const char *LPWS[] = { "Secret9z", nullptr, "", "PUBLIC", "@Az{`[z\xe4" };

// Every way to hand out the nonce, or to stop handing it out.
SCENARIO(client_login, 0)
{
	g_focus = false;
	static const char *NN[] = { "a0bc12de", "00000000", "ffffffff", "0000000f", "7fffffff", "90123456" };
	int ic = choose(7, "callsign"), ip_ = choose(5, "password"), in = choose(6, "nonce");
	Bytes nonce = NN[in];
	int give = choose(9, "bytes given first");
	int then = choose(give == 8 ? 1 : ic ? 5 : 7, "then"); // the rest at once, byte by byte, later; or the end, or a reset; or much later
	bool slow = choose(2, "slowly accepting");
	if (slow)
		NC.capacity = 5;
	Srv srv;
	srv.listen();
	{
		Lib c(LCALLS[ic], LPWS[ip_]);
		for (int round = 0; round < 2; round++) {
			c.start();
			CHECK(srv.accept(), "client", "not connected");
			srv.rx.clear();
			if (give)
				peer_send(srv.s, nonce.substr(0, give));
			quiesce();
			bool good = true;
			if (give < 8) {
				CHECK(srv.take().empty() && !peer_eof(srv.s) && c.ret == 99, "client-early", "something happened before the nonce was complete: %s", show(srv.rx).c_str());
				if (then == 0)
					peer_send(srv.s, nonce.substr(give));
				else if (then == 1) {
					for (int i = give; i < 8; i++) {
						CHECK(srv.take().empty() && !peer_eof(srv.s) && c.ret == 99, "client-early", "something happened before the nonce was complete: %s",
						      show(srv.rx).c_str());
						peer_send(srv.s, nonce.substr(i, 1));
						quiesce();
					}
				} else if (then == 2 || then >= 5) {
					vsleep(then == 2 ? 100000000ull : then == 5 ? 31000000000ull : 7200000000000ull);
					peer_send(srv.s, nonce.substr(give));
				} else {
					good = false;
					if (then == 3)
						peer_shutdown_wr(srv.s);
					else
						peer_abort(srv.s);
				}
			}
			quiesce();
			Bytes want = c.expect(nonce);
			if (good) {
				for (int i = 0; slow && i < 100 && srv.rx.size() < want.size(); i++) {
					CHECK(c.ret != 0 || want.size() - srv.rx.size() <= 5, "client-result", "success is reported with %zu bytes to go", want.size() - srv.rx.size());
					srv.take();
					quiesce();
				}
				CHECK(srv.take() == want, "client-bytes", "callsign %d password %d nonce %s: the client sent %s", ic, ip_, nonce.c_str(), show(srv.rx).c_str());
				CHECK(c.ret == 0, "client-result", "connecting returned %d", c.ret);
				CHECK(!peer_eof(srv.s), "client-result", "the connection is closed after a successful login");
			} else {
				CHECK(c.ret < 0 && c.ret != 99, "client-result", "the server went away after %d bytes of the nonce, connecting returned %d", give, c.ret);
				CHECK(sut_open().tcp_conn == 0, "leak-socket", "connecting failed, but left %s", describe_live_socks().c_str());
				if (then == 3)
					CHECK(peer_drain(srv.s).empty() && peer_eof(srv.s), "client-bytes", "something was sent without a nonce");
			}
			join_fiber(c.f);
			if (good || round == 0)
				proxy_client_disconnect(&c.ch);
			quiesce();
			CHECK(sut_open().tcp_conn == 0, "leak-socket", "disconnected, but left %s", describe_live_socks().c_str());
			if (good)
				CHECK(peer_eof(srv.s), "client-end", "still connected after disconnecting");
			if (then != 4)
				peer_close(srv.s);
			srv.s = nullptr;
			proxy_client_disconnect(&c.ch); // harmless
		}
		CHECK(!strcmp(c.host, "198.51.100.7") && !strcmp(c.port, "8100") && c.call == (LCALLS[ic] ? LCALLS[ic] : "") && c.pw == (LPWS[ip_] ? LPWS[ip_] : ""),
		      "client", "the settings were changed");
		proxy_client_free(&c.ch);
		CHECK(!c.ch.priv, "client", "freeing leaves private data");
		proxy_client_free(&c.ch); // harmless
	}
	check_no_leaks("leak");
	count_case(mix(mix(ic * 5 + ip_, in), give * 16 + then * 2 + slow));
	outcome("%d %d", give == 8 ? 0 : then, slow);
}

// Two clients of two servers at the same time.
SCENARIO(client_two, 0)
{
	g_focus = false;
	static const char *NN[] = { "a0bc12de", "0b1c2d3e" };
	int split[2] = { choose(3, "split") * 4, choose(3, "split") * 4 };
	Srv srv[2];
	srv[0].listen();
	srv[1].l = peer_listen("198.51.100.8", 8100);
	{
		Lib a("N0CALL", "Secret"), b("W1AW", "other");
		strcpy(b.host, "198.51.100.8");
		Lib *c[2] = { &a, &b };
		g_focus = true;
		a.start();
		b.start();
		Fiber *f[2];
		for (int i = 0; i < 2; i++)
			f[i] = spawn("server", FK_PEER, [&, i] {
				CHECK(srv[i].accept(), "client", "not connected");
				if (split[i])
					peer_send(srv[i].s, Bytes(NN[i]).substr(0, split[i]));
				if (split[i] < 8)
					peer_send(srv[i].s, Bytes(NN[i]).substr(split[i]));
			});
		for (int i = 0; i < 2; i++) {
			join_fiber(f[i]);
			join_fiber(c[i]->f);
		}
		quiesce();
		g_focus = false;
		for (int i = 0; i < 2; i++) {
			CHECK(c[i]->ret == 0, "client-result", "client %d: connecting returned %d", i, c[i]->ret);
			CHECK(srv[i].take() == c[i]->expect(NN[i]), "client-bytes", "client %d sent %s", i, show(srv[i].rx).c_str());
		}
		proxy_client_disconnect(&a.ch);
		quiesce();
		CHECK(peer_eof(srv[0].s) && !peer_eof(srv[1].s), "client-end", "disconnecting one client: first %d, second %d ended", peer_eof(srv[0].s), peer_eof(srv[1].s));
		proxy_client_free(&a.ch);
		quiesce();
		CHECK(!peer_eof(srv[1].s), "client-end", "freeing one client disconnects the other one");
		proxy_client_free(&b.ch);
		quiesce();
		CHECK(peer_eof(srv[1].s), "client-end", "still connected after freeing");
		for (auto &x : srv)
			peer_close(x.s);
		outcome("%d %d", split[0], split[1]);
	}
	check_no_leaks("leak");
}

// Servers which cannot be reached.
SCENARIO(client_unreach, 0)
{
	g_focus = false;
	static const ConnectMode modes[] = { CM_REFUSE, CM_UNREACH, CM_BLACKHOLE };
	int m = choose(5, "mode");
	{
		Lib c("N0CALL", "x");
		int later = choose(2, "works later");
		if (m < 3)
			peer_mode("198.51.100.7", 8100, modes[m]);
		else if (m == 3)
			strcpy(c.host, "no.such.host");
		else
			strcpy(c.port, "noport");
		for (int i = 0; i < 2; i++) {
			int r = proxy_client_connect(&c.ch);
			CHECK(r < 0, "client-result", "connecting to a server which cannot be reached returned %d", r);
			CHECK(live_socks() == 0, "leak-socket", "connecting failed, but left %s", describe_live_socks().c_str());
		}
		if (later) {
			strcpy(c.host, "198.51.100.8");
			strcpy(c.port, "8100");
			Srv srv;
			srv.l = peer_listen("198.51.100.8", 8100);
			c.start();
			CHECK(srv.accept(), "client", "not connected");
			peer_send(srv.s, "12345678");
			quiesce();
			CHECK(srv.take() == c.expect("12345678") && c.ret == 0, "client-bytes", "later, the client sent %s", show(srv.rx).c_str());
			join_fiber(c.f);
		}
		proxy_client_free(&c.ch);
	}
	CHECK(sut_open().tcp_conn == 0, "leak-socket", "freed, but left %s", describe_live_socks().c_str());
	check_no_leaks("leak");
	outcome("%d", m);
}

// Another thread disconnects while the client waits for the nonce, or sends, or is done.
SCENARIO(client_cancel, 0)
{
	int give = choose(3, "nonce"); // none, part, whole
	bool slow = choose(2, "slowly accepting");
	bool ends = choose(2, "server ends");
	g_focus = false;
	if (slow)
		NC.capacity = 3;
	Srv srv;
	srv.listen();
	{
		Lib c("N0CALL", "Secret");
		u64 tc = 0, te = 0;
		c.f = spawn("user", FK_SUT, [&] {
			c.ret = proxy_client_connect(&c.ch);
			te = vnow();
		});
		CHECK(srv.accept(), "client", "not connected");
		quiesce(); // now it waits for the nonce
		g_focus = true;
		Fiber *s = spawn("server", FK_PEER, [&] {
			if (give)
				peer_send(srv.s, give == 1 ? "1234" : "12345678");
			if (ends)
				peer_shutdown_wr(srv.s);
		});
		Fiber *d = spawn("canceller", FK_SUT, [&] {
			tc = vnow();
			proxy_client_disconnect(&c.ch);
			CHECK(vnow() == tc, "client-cancel", "disconnecting took time");
		});
		join_fiber(d);
		join_fiber(s);
		join_fiber(c.f);
		quiesce();
		g_focus = false;
		CHECK(te <= tc, "client-cancel", "connecting returned late");
		CHECK(c.ret <= 0 && (give == 2 || c.ret < 0), "client-result", "connecting returned %d", c.ret);
		CHECK(sut_open().tcp_conn == 0, "leak-socket", "disconnected, but left %s", describe_live_socks().c_str());
		Bytes want = c.expect("12345678");
		Bytes got = srv.take();
		CHECK(got == want.substr(0, got.size()) && (give == 2 || got.empty()), "client-bytes", "the client sent %s", show(got).c_str());
		CHECK(c.ret < 0 || slow || got == want, "client-bytes", "success is reported, but the client sent %s", show(got).c_str());
		CHECK(peer_eof(srv.s) || peer_reset_seen(srv.s), "client-end", "still connected after disconnecting");
		peer_close(srv.s);
		// and again
		NC.capacity = 1000;
		srv.rx.clear();
		c.start();
		CHECK(srv.accept(), "client", "not connected");
		peer_send(srv.s, "abcdef01");
		quiesce();
		CHECK(srv.take() == c.expect("abcdef01") && c.ret == 0, "client-bytes", "again, the client sent %s", show(srv.rx).c_str());
		join_fiber(c.f);
		proxy_client_free(&c.ch);
		quiesce();
		CHECK(peer_eof(srv.s), "client-end", "still connected after freeing");
		outcome("%d %d %d", give, c.ret < 0, ends);
	}
	check_no_leaks("leak");
}
