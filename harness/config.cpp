// Drivers for the configuration table and the sqlite helpers: C18-C21, C23-C27.
#include "common.h"
#include "mcvfs.h"
#include "sizes.h"
#include "quiet.inc"
#include "Configuration.h"
#include "sqlite3util.h"
#include <sstream>
#include <algorithm>
#include <functional>
#include <math.h>
#include <limits.h>
#include <arpa/inet.h>
ConfigurationTable gConfig;
using namespace mc;
typedef std::string S;
typedef ConfigurationKey CK;
static CK key(const S &n, const S &d, CK::Type t, const S &v = "", bool st = false, const S &desc = "", CK::VisibilityLevel vis = CK::CUSTOMER, unsigned scope = 0, const S &units = "") { return CK(n, d, units, vis, t, v, st, desc, scope); }
static ConfigurationKeyMap schema(std::initializer_list<CK> l) { ConfigurationKeyMap m; for (const CK &k : l) m[k.getName()] = k; return m; }
static const S DB = "/db";
static void fresh() { vfs::install(); vfs::reset(); setClock(1700000000, 0); gErrors = 0; }
static S rd(ConfigurationTable &t, const S &k)
{
	try { return "=" + t.getStr(k); }
	catch (ConfigurationTableKeyNotFound &e) { MC_CHECK(e.key() == k, "reading %s reports %s as missing", show(k).c_str(), show(e.key()).c_str()); return "!"; }
}
// The table as another connection sees it: key -> value ("=..." or "NULL").
static std::map<S, S> rows(const char *file = "/db", bool *ok = 0)
{
	std::map<S, S> r; sqlite3 *db; sqlite3_stmt *st; int n = 0; if (ok) *ok = true;
	if (sqlite3_open(file, &db) || sqlite3_prepare_v2(db, "SELECT KEYSTRING,VALUESTRING FROM CONFIG", -1, &st, 0)) { if (ok) *ok = false; else fail("the database is unreadable: %s", sqlite3_errmsg(db)); sqlite3_close(db); return r; }
	int rc; while ((rc = sqlite3_step(st)) == SQLITE_ROW) {
		S k((const char *)sqlite3_column_text(st, 0), sqlite3_column_bytes(st, 0)); const char *v = (const char *)sqlite3_column_text(st, 1);
		r[k] = v ? "=" + S(v, sqlite3_column_bytes(st, 1)) : "NULL"; n++;
	}
	if (rc != SQLITE_DONE) { if (ok) *ok = false; else fail("reading the database fails: %s", sqlite3_errmsg(db)); }
	sqlite3_finalize(st); sqlite3_close(db);
	if (!ok) MC_CHECK(n == (int)r.size(), "duplicate rows"); return r;
}
static bool sql(const S &q, const char *file = "/db") { sqlite3 *db; char *e = 0; bool ok = !sqlite3_open(file, &db) && !sqlite3_exec(db, q.c_str(), 0, 0, &e); if (!ok) note("sql %s: %s", q.c_str(), e ? e : "?"); sqlite3_free(e); sqlite3_close(db); return ok; }
static S q(const S &s) { S r = "'"; for (char c : s) { r += c; if (c == '\'') r += c; } return r + "'"; }
static S str(const std::map<S, S> &m) { S r; for (auto &p : m) r += show(p.first) + p.second + " "; return r.size() > 400 ? r.substr(0, 400) : r; }
static bool low(const S &a, const S &b) { auto f = [](S s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }; return f(a).find(f(b)) != S::npos; }
// No statement may be left running: it would keep the database locked for everybody else.
static void idle() { for (sqlite3 *p : vfs::conns()) for (sqlite3_stmt *s = sqlite3_next_stmt(p, 0); s; s = sqlite3_next_stmt(p, s)) MC_CHECK(!sqlite3_stmt_busy(s), "a query is left running: %s", sqlite3_sql(s)); }

// ================================================================ C18: a map with defaults
struct Ref {
	std::map<S, S> row; ConfigurationKeyMap sch;
	S get(const S &k) const { auto i = row.find(k); if (i != row.end() && i->second != "NULL") return i->second; auto j = sch.find(k); return j == sch.end() ? "!" : "=" + j->second.getDefaultValue(); }
};
static void checkKey(ConfigurationTable &t, const Ref &r, const S &k)
{
	S w = r.get(k), g = rd(t, k); MC_CHECK(g == w, "%s reads %s, expected %s", show(k).c_str(), show(g).c_str(), show(w).c_str());
	MC_CHECK(t.defines(k) == (w != "!"), "defines(%s) is %d for %s", show(k).c_str(), t.defines(k), show(w).c_str());
	if (w != "!") { long n = t.getNum(k), e = strtol(w.c_str() + 1, 0, 0); MC_CHECK(n == e, "number %s is %ld, expected %ld", show(k).c_str(), n, e); MC_CHECK(t.getBool(k) == (e != 0), "boolean %s", show(k).c_str()); }
	auto sk = r.sch.find(k); MC_CHECK(t.isStatic(k) == (sk != r.sch.end() && sk->second.isStatic()), "isStatic(%s)", show(k).c_str());
	if (w == "!") { int n = 0; try { t.getNum(k); } catch (ConfigurationTableKeyNotFound &e) { n += e.key() == k; } try { t.getBool(k); } catch (ConfigurationTableKeyNotFound &e) { n += e.key() == k; }
		try { t.getFloat(k); } catch (ConfigurationTableKeyNotFound &e) { n += e.key() == k; } try { t.getVector(k); } catch (ConfigurationTableKeyNotFound &e) { n += e.key() == k; } try { t.getVectorOfStrings(k); } catch (ConfigurationTableKeyNotFound &e) { n += e.key() == k; }
		MC_CHECK(n == 5, "a missing key is reported by %d of 5 typed reads", n); }
}
static void checkAll(ConfigurationTable &t, const Ref &r, const std::vector<S> &keys)
{
	for (const S &k : keys) checkKey(t, r, k);
	std::map<S, S> got; for (auto &p : t.getAllPairs()) got[p.first] = p.second.defined() ? "=" + p.second.value() : "NULL";
	MC_CHECK(got == r.row, "all pairs: %s, expected %s", str(got).c_str(), str(r.row).c_str());
	std::map<S, S> raw = rows(); MC_CHECK(raw == r.row, "stored: %s, expected %s", str(raw).c_str(), str(r.row).c_str());
	for (const S &k : keys) MC_CHECK(t.keyDefinedInSchema(k) == (r.sch.count(k) > 0), "keyDefinedInSchema(%s)", show(k).c_str());
	MC_CHECK(t.mSchema.size() == r.sch.size(), "the schema now has %d keys, not %d", (int)t.mSchema.size(), (int)r.sch.size());
}
static void checkFind(ConfigurationTable &t, const Ref &r, const S &pat)
{
	std::ostringstream os; t.find(pat, os); std::multiset<S> got, want; S l; std::istringstream is(os.str()); while (getline(is, l)) got.insert(l);
	for (auto &p : r.row) if (low(p.first, pat)) want.insert(p.first + " " + (p.second == "NULL" || p.second == "=" ? "(disabled)" : p.second.substr(1)));
	MC_CHECK(got == want, "find %s prints %s (%d lines), expected %d lines", show(pat).c_str(), show(os.str()).c_str(), (int)got.size(), (int)want.size());
}
static void mapOps(const std::vector<S> &keys, const std::vector<S> &vals, int first)
{
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100"), key("opt", "", CK::STRING_OPT, ".*"), key("flag", "1", CK::BOOLEAN, "", true) }));
	Ref r; r.sch = t.mSchema; int nk = keys.size(), nv = vals.size(), N = nk * (nv + 3) + 3;
	for (int i = 0; i < depth(); i++) {
		int o = !i && first >= 0 ? first : choose(N, "op"), k = o % nk, w = o / nk;
		if (w < nv) { MC_CHECK(t.set(keys[k], vals[w]), "set %s fails", keys[k].c_str()); r.row[keys[k]] = "=" + vals[w]; }
		else if (w == nv) { MC_CHECK(t.set(keys[k], -5L), "set %s to a number fails", keys[k].c_str()); r.row[keys[k]] = "=-5"; }
		else if (w == nv + 1) { bool had = r.row.erase(keys[k]); bool g = t.remove(keys[k]); MC_CHECK(g == had, "remove %s says %d, the key was %spresent", keys[k].c_str(), g, had ? "" : "not "); }
		else if (w == nv + 2) { checkKey(t, r, keys[k]); continue; }
		else if (k == 0) t.purge(); else if (k == 1) advance(3000000); else checkFind(t, r, "u");
	}
	checkAll(t, r, keys); checkFind(t, r, ""); checkFind(t, r, "N"); checkFind(t, r, "lain"); idle(); outcome(str(r.row));
}
MC_SCENARIO(C18, ops_plain, SEQ, "all operation sequences on two keys without a default that differ in case, and one with", o.quickDepth = 3, o.thoroughDepth = 4) { mapOps({ "plain", "Plain", "num" }, { "", "7" }, -1); }
MC_SCENARIO(C18, ops_schema, SEQ, "all operation sequences on keys with a default, an empty default and a static flag", o.quickDepth = 3, o.thoroughDepth = 4) { mapOps({ "num", "opt", "flag" }, { "", "some text" }, -1); }
MC_SCENARIO(C18, numbers, SEQ, "setting numbers of every magnitude and sign: what is stored, read as text, as a number and as a truth value")
{
	int bit = choose(64, "bit"), sign = choose(2, "sign"), off = choose(5, "offset"); fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); unsigned long m = 1ul << bit; m += (unsigned long)(off - 2); if (sign) m = -m; long v = (long)m;
	for (S k : { S("plain"), S("num") }) { MC_CHECK(t.set(k, 3L) && t.set(k, v), "setting %ld fails", v); for (int again = 0; again < 2; again++) { S e = std::to_string(v); MC_CHECK(t.getStr(k) == e, "%ld reads %s", v, t.getStr(k).c_str()); MC_CHECK(t.getNum(k) == v, "%ld reads %ld", v, t.getNum(k)); MC_CHECK(t.getBool(k) == (v != 0), "%ld as a truth value", v); t.purge(); } } MC_CHECK(rows()["num"] == "=" + std::to_string(v), "stored: %s", rows()["num"].c_str()); outcome(v < 0 ? "negative" : v ? "positive" : "zero");
}
MC_SCENARIO(C18, existing, SEQ, "a table opened on a database that already has rows, empty and NULL values, or no table at all")
{
	fresh(); Ref r; static const char *const V[] = { 0, "NULL", "=", "=9", "=x y" }; static const char *const K[] = { "num", "opt", "plain" };
	if (choose(2, "table present")) {
		MC_CHECK(sql("CREATE TABLE CONFIG ( KEYSTRING TEXT UNIQUE NOT NULL, VALUESTRING TEXT, STATIC INTEGER DEFAULT 0, OPTIONAL INTEGER DEFAULT 0, COMMENTS TEXT DEFAULT '')"), "create");
		for (const char *k : K) { const char *v = V[choose(5, "value")]; if (!v) continue; r.row[k] = v; sql(S("INSERT INTO CONFIG (KEYSTRING,VALUESTRING) VALUES(") + q(k) + "," + (*v == '=' ? q(v + 1) : "NULL") + ")"); }
	}
	ConfigurationTable t(DB.c_str(), choose(2, "named") ? "a program with a long name" : 0, schema({ key("num", "42", CK::VALRANGE, "0:100"), key("opt", "", CK::STRING_OPT, ".*") })); r.sch = t.mSchema;
	std::vector<S> keys = { "num", "opt", "plain", "other" }; checkAll(t, r, keys); checkFind(t, r, ""); 
	int c = choose(4, "then"); if (c < 3) { S k = K[c]; if (choose(2, "set")) { MC_CHECK(t.set(k, "new"), "set"); r.row[k] = "=new"; } else { bool h = r.row.erase(k); MC_CHECK(t.remove(k) == h, "remove %s", k.c_str()); } }
	checkAll(t, r, keys);
	ConfigurationTable u(DB.c_str(), "again", schema({ key("num", "43", CK::VALRANGE, "0:100") })); Ref r2; r2.row = r.row; r2.sch = u.mSchema; checkAll(u, r2, keys); idle(); outcome(str(r.row));
}
MC_SCENARIO(C18, many_keys, SEQ, "tables of every size up to 257 and of 500 and 1001 keys, half of them with a default, set twice, read from the cache and from the database, listed and removed")
{
	static const unsigned more[] = { 300, 500, 501, 1001 }; std::vector<unsigned> z = sizesUpTo(thorough() ? 3001 : 257); if (!thorough()) z.insert(z.end(), more, more + 4); unsigned n = z[choose(z.size(), "keys")]; fresh();
	ConfigurationKeyMap m; auto K = [](unsigned i) { return S(i % 5 ? "Key." : "KEY.") + std::to_string(i); }; for (unsigned i = 0; i < n; i += 2) m[K(i)] = key(K(i), "d" + std::to_string(i), CK::STRING, ".*");
	ConfigurationTable t(DB.c_str(), "test", m); Ref r; r.sch = t.mSchema; std::vector<S> all; for (unsigned i = 0; i < n; i++) all.push_back(K(i)); all.push_back("other");
	auto same = [&](ConfigurationTable &t, const char *when) { for (const S &k : all) { S w = r.get(k), g = rd(t, k); MC_CHECK(g == w, "%s, with %u keys, %s reads %s, expected %s", when, n, k.c_str(), g.c_str(), w.c_str()); MC_CHECK(t.defines(k) == (w != "!"), "%s, with %u keys, defines(%s)", when, n, k.c_str()); } };
	same(t, "at first");
	for (int round = 0; round < 3; round++) { for (unsigned i = 0; i < n; i++) { S v = std::to_string(i * 3 + round); if (i % 4 == 3) MC_CHECK(t.set(K(i), (long)(i * 3 + round)), "set"); else MC_CHECK(t.set(K(i), v), "set"); r.row[K(i)] = "=" + v; } same(t, "after setting them all"); if (round == 1) { t.purge(); same(t, "after a purge"); } }
	checkAll(t, r, { "other" }); checkFind(t, r, ""); checkFind(t, r, "1"); advance(4000000); same(t, "later"); { ConfigurationTable u(DB.c_str(), "again", m); same(u, "in a second table"); }
	for (unsigned i = 0; i < n; i++) if (i % 3) { MC_CHECK(t.remove(K(i)), "removing key %u of %u", i, n); r.row.erase(K(i)); } same(t, "after removals"); checkAll(t, r, { "other" }); idle(); outcome(std::to_string(n));
}
MC_SCENARIO(C18, long_values, SEQ, "values of every length up to 66 and around every round number and power of two up to 131072")
{
	unsigned n = chooseSize(131073); int sch = choose(2, "with a default"); fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); Ref r; r.sch = t.mSchema; S k = sch ? "num" : "plain"; 
	for (S v : { S(n, 'x'), S(n, '7'), S(n ? n - 1 : 0, ' ') + (n ? "y" : "") }) { MC_CHECK(t.set(k, v), "setting a value of %u characters fails", n); r.row[k] = "=" + v; for (int i = 0; i < 2; i++) { S g = rd(t, k); MC_CHECK(g == "=" + v, "a value of %u characters reads back as %zu characters", n, g.size() - 1); t.purge(); } MC_CHECK(rows()[k] == "=" + v, "a value of %u characters is stored as %zu", n, rows()[k].size() - 1); }
	if (n < 10000) checkAll(t, r, { k, "other" }); checkFind(t, r, ""); MC_CHECK(t.remove(k), "remove"); r.row.erase(k); checkAll(t, r, { "num", "plain" }); idle(); outcome(std::to_string(n));
}

// ================================================================ C19: text is data
static std::vector<S> nasty()
{
	std::vector<S> v = { "a", "a b", " lead", "trail ", "it's", "'", "''", "'''x", "\"", "\"\"", "say \"no\"", "KEYSTRING", "VALUESTRING", "STATIC", "OPTIONAL", "COMMENTS", "CONFIG", "rowid", "NULL", "null", "1", "-7", "0x10", "1e5",
		"x');DELETE FROM CONFIG;--", "x\");DELETE FROM CONFIG;--", "x' OR '1'=='1", "x\" OR \"1\"==\"1", "--", "/*", "*/", ";", "\\", "\\'", "%", "_", "50%", "a_b", "?1", ":n", "@v", "$d", "x'00'", "[b]", "`t`", "||", "\n", "a\nb", "\t", "\r\n", "\x01", "\x7f",
		"\xc3\xa9", "\xff\xfe", "\x80", "{\"j\": [1,2]}", "<a href='x'>", "a|b,c|d", "key=value", "A", "\xc3\x89" };
	v.push_back(S(99, 'q')); v.push_back(S(100, 'r')); v.push_back(S(4000, 'l')); v.push_back(S(200, '\'')); v.push_back(S(200, '"'));
	return v;
}
static void checkText(ConfigurationTable &t, const Ref &r, const std::vector<S> &keys)
{
	for (const S &k : keys) { S w = r.get(k), g = rd(t, k); MC_CHECK(g == w, "[%s] reads [%s], expected [%s]", show(k).c_str(), show(g).c_str(), show(w).c_str()); MC_CHECK(t.defines(k) == (w != "!"), "defines [%s]", show(k).c_str()); }
	std::map<S, S> got; for (auto &p : t.getAllPairs()) got[p.first] = p.second.defined() ? "=" + p.second.value() : "NULL";
	MC_CHECK(got == r.row, "all pairs: %s, expected %s", str(got).c_str(), str(r.row).c_str());
	std::map<S, S> raw = rows(); MC_CHECK(raw == r.row, "stored: %s, expected %s", str(raw).c_str(), str(r.row).c_str());
}
static S findText(const Ref &r, const S &pat, ConfigurationTable &t, S &want)
{
	std::ostringstream os; t.find(pat, os); std::multiset<S> w; for (auto &p : r.row) if (low(p.first, pat)) w.insert(p.first + " " + (p.second == "NULL" || p.second == "=" ? "(disabled)" : p.second.substr(1)) + "\n");
	want = ""; for (const S &s : w) want += s; S g = os.str(), g2 = g; if (g.size() == want.size()) { std::sort(g2.begin(), g2.end()); S w2 = want; std::sort(w2.begin(), w2.end()); if (g2 == w2) return want; } return g;
}
MC_SCENARIO(C19, pairs, SEQ, "every awkward text as key with every awkward text as value, next to an unrelated row")
{
	static const std::vector<S> T = nasty(); fresh(); const S &k = T[choose(T.size(), "key")]; int blk = choose(2, "purge"); uint64_t n = 0;
	ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); Ref r; r.sch = t.mSchema;
	MC_CHECK(t.set("bystander", "left alone"), "set"); r.row["bystander"] = "=left alone";
	std::vector<S> keys = { "bystander", "num", k, "a", "other" };
	for (unsigned i = 0; i < T.size(); i++) {
		MC_CHECK(t.set(k, T[i]), "setting [%s] to [%s] fails", show(k).c_str(), show(T[i]).c_str()); r.row[k] = "=" + T[i]; if (blk) t.purge();
		checkText(t, r, keys); n++;
		if (!i && k.find_first_of("%_") == S::npos) { S w, g = findText(r, k, t, w); MC_CHECK(g == w, "find [%s] prints [%s], expected [%s]", show(k).c_str(), show(g).c_str(), show(w).c_str()); }
	}
	ConfigurationTable u(DB.c_str(), "again"); MC_CHECK(rd(u, k) == r.get(k), "a second table reads [%s]", show(rd(u, k)).c_str());
	MC_CHECK(t.remove(k), "removing [%s] says nothing was removed", show(k).c_str()); r.row.erase(k); if (blk) t.purge(); checkText(t, r, keys); MC_CHECK(!t.remove(k), "removing [%s] twice", show(k).c_str()); checkText(t, r, keys); idle();
	cases(n); outcome(show(k));
}
MC_SCENARIO(C19, schema_text, SEQ, "awkward texts as default value, description and key of a schema entry")
{
	static const std::vector<S> T = nasty(); fresh(); int what = choose(3, "place"); const S &x = T[choose(T.size(), "text")]; S k = what == 2 ? x : "thekey", def = what == 0 ? x : "dflt", desc = what == 1 ? x : "d";
	ConfigurationTable t(DB.c_str(), "test", schema({ key(k, def, CK::STRING, ".*", true, desc) })); Ref r; r.sch = t.mSchema; std::vector<S> keys = { k, "thekey", "dflt", "other" };
	checkText(t, r, keys); MC_CHECK(t.set(k, "v1"), "a key with description [%s] cannot be set", show(desc).c_str()); r.row[k] = "=v1"; checkText(t, r, keys);
	MC_CHECK(t.set("other", x), "set"); r.row["other"] = "=" + x; t.purge(); checkText(t, r, keys);
	MC_CHECK(t.remove(k), "remove"); r.row.erase(k); checkText(t, r, keys); MC_CHECK(rd(t, k) == "=" + def, "after removal the default is [%s]", show(rd(t, k)).c_str()); idle(); outcome(show(x));
}
MC_SCENARIO(C19, search, SEQ, "every awkward text as search pattern over a table holding them all")
{
	static const std::vector<S> T = nasty(); fresh(); ConfigurationTable t(DB.c_str(), "test"); Ref r; r.sch = t.mSchema; for (unsigned i = 0; i < T.size(); i++) { S v = T[(i * 7 + 3) % T.size()]; MC_CHECK(t.set(T[i], v), "set"); r.row[T[i]] = "=" + v; }
	uint64_t n = 0; for (const S &p : T) { if (p.find_first_of("%_") != S::npos) continue; S w, g = findText(r, p, t, w); MC_CHECK(g == w, "find [%s] prints [%s], expected [%s]", show(p).c_str(), show(g).c_str(), show(w).c_str()); n++; }
	checkText(t, r, T); idle(); cases(n); outcome("ok");
}
MC_SCENARIO(C19, short_strings, SEQ, "every string of up to three characters over the SQL-relevant ones, as key and as value", o.quickDepth = 3, o.thoroughDepth = 4)
{
	static const char A[] = "'\"a;-\\% \n"; fresh(); ConfigurationTable t(DB.c_str(), "test"); int f = choose(9, "first"); uint64_t n = 0;
	std::function<void(S)> go = [&](S s) {
		MC_CHECK(t.set(s, s + "v"), "set [%s]", show(s).c_str()); MC_CHECK(t.set("k", s), "set to [%s]", show(s).c_str()); t.purge();
		MC_CHECK(rd(t, s) == "=" + s + "v" && rd(t, "k") == "=" + s, "[%s] reads [%s], k reads [%s]", show(s).c_str(), show(rd(t, s)).c_str(), show(rd(t, "k")).c_str());
		MC_CHECK(t.getAllPairs().size() == 2, "%d rows", (int)t.getAllPairs().size()); MC_CHECK(t.remove(s), "remove [%s]", show(s).c_str()); MC_CHECK(t.getAllPairs().size() == 1, "after removing [%s]", show(s).c_str()); n++;
		if ((int)s.size() < depth()) for (int i = 0; A[i]; i++) go(s + A[i]);
	};
	go(S(1, A[f])); cases(n); outcome(S(1, '0' + f));
}
MC_SCENARIO(C19, long_text, SEQ, "keys, values, defaults, descriptions and patterns of every length up to 66 and around every round number and power of two up to 70000, next to a row whose key is a beginning of it")
{
	unsigned n = chooseSize(thorough() ? 70001 : 8193, 70001); static const char C[] = "k'\"%"; char c = C[choose(4, "character")]; if (!n) skip(); fresh(); int what = choose(4, "place"); S x(n, c); if (n > 2) x[n - 1] = 'z'; S k = what == 0 || what == 3 ? x : "thekey", v = what == 1 ? x : "v", def = what == 2 ? x : "dflt", desc = what == 2 ? x : "d"; S part = n > 1 ? x.substr(0, n - 1) : "other";
	ConfigurationTable t(DB.c_str(), "test", what == 3 ? ConfigurationKeyMap() : schema({ key(k, def, CK::STRING, ".*", true, desc) })); Ref r; r.sch = t.mSchema; std::vector<S> keys = { k, "other", "bystander", part, k + "z" };
	MC_CHECK(t.set("bystander", "left alone") && t.set(part, "part"), "set"); r.row["bystander"] = "=left alone"; r.row[part] = "=part"; checkText(t, r, keys);
	for (int i = 0; i < 2; i++) { S w = i ? "short" : v; MC_CHECK(t.set(k, w), "setting fails with a text of %u characters", n); r.row[k] = "=" + w; checkText(t, r, keys); t.purge(); checkText(t, r, keys); }
	if (n < 40000 && c != '%') { S w, g = findText(r, part, t, w); MC_CHECK(g == w, "find prints %zu characters, expected %zu", g.size(), w.size()); }
	MC_CHECK(t.remove(k), "remove"); r.row.erase(k); checkText(t, r, keys); idle(); outcome(std::to_string(n));
}

// ================================================================ C20: typed reads
static bool isNum(const char *&p, int base, unsigned __int128 &v) { const char *s = p; v = 0; for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (d >= base) break; v = v * base + d; if (v > (unsigned __int128)1 << 100) v = (unsigned __int128)1 << 100; } return p > s; }
// Number at the start of a text as C writes it: decimal, 0x hexadecimal or 0 octal, saturating.
static long refNum(const char *p)
{
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool neg = *p == '-'; if (*p == '-' || *p == '+') p++; unsigned __int128 v; const char *h = p + 2;
	if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isNum(h, 16, v)) ; else if (*p == '0') isNum(p, 8, v); else if (!isNum(p, 10, v)) return 0;
	if (neg) return v > (unsigned __int128)1 << 63 ? LONG_MIN : (long)-(__int128)v; return v > LONG_MAX ? LONG_MAX : (long)v;
}
static std::vector<S> words(const S &s) { std::vector<S> r; S w; for (char c : s + " ") if (c == ' ') { if (w.size()) r.push_back(w); w = ""; } else w += c; return r; }
static void typed(ConfigurationTable &t, const S &s)
{
	if (s.find_first_not_of(" \t") == S::npos) MC_CHECK(t.getFloat("k") == 0, "float of [%s] read first is %g", show(s).c_str(), t.getFloat("k"));
	long e = refNum(s.c_str()), g = t.getNum("k"); MC_CHECK(g == e, "number of [%s] is %ld, expected %ld", show(s).c_str(), g, e); MC_CHECK(t.getNum("k") == e, "the second read of [%s] differs", show(s).c_str()); MC_CHECK(t.getBool("k") == (e != 0), "boolean of [%s]", show(s).c_str());
	char *end; float f = strtof(s.c_str(), &end), h = t.getFloat("k"); MC_CHECK(h == f || (h != h && f != f), "float of [%s] is %g, expected %g", show(s).c_str(), h, f); MC_CHECK(t.getStr("k") == s, "text of [%s]", show(s).c_str());
	std::vector<S> w = words(s), v = t.getVectorOfStrings("k"); MC_CHECK(v == w, "[%s] has %d words, expected %d", show(s).c_str(), (int)v.size(), (int)w.size());
	std::vector<unsigned> n; for (const S &x : w) n.push_back((unsigned)refNum(x.c_str())); std::vector<unsigned> m = t.getVector("k"); 
	MC_CHECK(m == n, "the vector of [%s] has %d elements starting with %u, expected %d starting with %u", show(s).c_str(), (int)m.size(), m.size() ? m[0] : 0, (int)n.size(), n.size() ? n[0] : 0); MC_CHECK(t.getVectorLength("k") == n.size(), "length");
}
MC_SCENARIO(C20, strings, SEQ, "every text of up to four characters over digits, signs, prefixes and spaces, through every typed read", o.quickDepth = 4, o.thoroughDepth = 5)
{
	static const char A[] = "0189xa-+. e"; fresh(); ConfigurationTable t(DB.c_str(), "test"); int f = choose(11, "first"), f2 = choose(12, "second"); uint64_t n = 0;
	std::function<void(S)> go = [&](S s) {
		MC_CHECK(t.set("k", s), "set"); typed(t, s); n++;
		if ((int)s.size() < depth()) for (int i = 0; A[i]; i++) go(s + A[i]);
	};
	if (f2 < 11) go(S(1, A[f]) + A[f2]); else { MC_CHECK(t.set("k", S(1, A[f])), "set"); typed(t, S(1, A[f])); MC_CHECK(t.set("k", ""), "set"); typed(t, ""); n = 2; }
	cases(n); outcome(S(1, A[f]));
}
MC_SCENARIO(C20, numbers, SEQ, "numbers of every magnitude set as numbers, as decimal and as hexadecimal text")
{
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("k", "42", CK::VALRANGE, "0:100") })); int b = choose(64, "bit"); uint64_t n = 0;
	MC_CHECK(t.getNum("k") == 42, "default number is %ld", t.getNum("k"));
	for (int d = -2; d <= 2; d++) for (int sg = 0; sg < 2; sg++) {
		long v = (long)((1ull << b) + d); if (sg) v = (long)-(unsigned long)v; char x[40]; 
		for (int how = 0; how < 3; how++) {
			if (how == 0) MC_CHECK(t.set("k", v), "set"); else if (how == 1) { snprintf(x, sizeof x, "%ld", v); MC_CHECK(t.set("k", x), "set"); } else { if (v < 0) continue; snprintf(x, sizeof x, "0x%lx", v); MC_CHECK(t.set("k", S(x)), "set"); }
			MC_CHECK(t.getNum("k") == v, "%ld comes back as %ld", v, t.getNum("k")); MC_CHECK(t.getBool("k") == (v != 0), "boolean of %ld", v); if (how < 2) { snprintf(x, sizeof x, "%ld", v); MC_CHECK(t.getStr("k") == x, "%ld comes back as %s", v, t.getStr("k").c_str()); }
			t.purge(); MC_CHECK(t.getNum("k") == v, "%ld comes back as %ld from the database", v, t.getNum("k")); n++;
		}
	}
	cases(n); outcome(std::to_string(b));
}
MC_SCENARIO(C20, vectors, SEQ, "all lists of up to four numbers with all runs of spaces around them")
{
	static const char *const N[] = { "0", "7", "0x1F", "010", "4294967295", "-1", "x", "12" }; static const char *const SP[] = { " ", "  ", "   " }; fresh(); ConfigurationTable t(DB.c_str(), "test");
	int len = choose(5, "length"), lead = choose(3, "lead"), trail = choose(3, "trail"); uint64_t n = 0; 
	std::function<void(int, S)> go = [&](int i, S s) {
		if (i == len) { S x = S(lead, ' ') + s + S(trail, ' '); MC_CHECK(t.set("k", x), "set"); typed(t, x); n++; return; }
		for (const char *w : N) { if (!i) go(1, w); else for (const char *sp : SP) { if (len > 3 && (sp != SP[i % 3])) continue; go(i + 1, s + sp + w); } }
	};
	go(0, ""); cases(n); outcome(std::to_string(len));
}
MC_SCENARIO(C20, long_vectors, SEQ, "lists of every length up to 66 and around every round number and power of two up to 5000, with long words and gaps")
{
	unsigned n = chooseSize(5001), kind = choose(3, "words"); fresh(); ConfigurationTable t(DB.c_str(), "test"); S x; for (unsigned i = 0; i < n; i++) x += (kind == 0 ? std::to_string(i * 2654435761u) : kind == 1 ? "0x" + S(i % 40, '0') + "1" : S(i % 3, '0') + std::to_string(i)) + S(kind == 2 ? 1 + i % 7 : 1, ' '); 
	MC_CHECK(t.set("k", x), "set"); typed(t, x); t.purge(); typed(t, x); if (x.size() > 1) { x.erase(x.size() - 1); MC_CHECK(t.set("k", x), "set"); typed(t, x); } S one(n, 'w'); MC_CHECK(t.set("k", one), "set"); typed(t, one); one = S(n, ' ') + "5" + S(n, ' '); MC_CHECK(t.set("k", one), "set"); typed(t, one); one = S(n, '0') + "7"; MC_CHECK(t.set("k", one), "set"); typed(t, one); outcome(std::to_string(n));
}

// ================================================================ C21: validation
static bool digits(const S &s) { for (char c : s) if (c < '0' || c > '9') return false; return s.size(); }
static bool lead0(const S &s) { for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '0' && isdigit((unsigned char)s[i + 1]) && (!i || !isdigit((unsigned char)s[i - 1]))) return true; return false; }
static bool vPort(const S &s) { if (!digits(s) || s.size() > 12) return false; long v = atol(s.c_str()); return v >= 1 && v <= 65535; }
static std::vector<S> split(const S &s, char c) { std::vector<S> r(1); for (char x : s) if (x == c) r.push_back(""); else r.back() += x; return r; }
static bool vIP(const S &s) { auto p = split(s, '.'); if (p.size() != 4) return false; for (const S &x : p) if (!digits(x) || x.size() > 3 || atoi(x.c_str()) > 255 || (x.size() > 1 && x[0] == '0')) return false; return true; }
static bool vIPPort(const S &s) { size_t c = s.find(':'); return c != S::npos && vIP(s.substr(0, c)) && vPort(s.substr(c + 1)); }
static bool vChars(const S &s, const char *extra) { for (unsigned char c : s) if (!c || !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || strchr(extra, c))) return false; return s.size(); }
static bool vHostPort(const S &s) { size_t c = s.find(':'); return c != S::npos && (vIP(s.substr(0, c)) || vChars(s.substr(0, c), "_.-")) && vPort(s.substr(c + 1)); }
static bool vCIDR(const S &s) { size_t c = s.find('/'); if (c == S::npos || !vIP(s.substr(0, c))) return false; S n = s.substr(c + 1); return digits(n) && n.size() < 5 && atoi(n.c_str()) <= 32; }
static bool vMIP(const S &s) { for (const S &x : split(s, ' ')) if (!vIP(x) && !vIPPort(x)) return false; return true; }
static void strs(const char *alpha, int max, const S &s, const std::function<void(const S &)> &f) { f(s); if ((int)s.size() < max) for (const char *p = alpha; *p; p++) strs(alpha, max, s + *p, f); }
static const S KINDS[] = { "bool", "cidr", "cidro", "path", "patho", "hp", "hpo", "ip", "ipo", "ipp", "mip", "mipo", "port", "porto", "str", "stro" };
static ConfigurationKeyMap kinds()
{
	return schema({ key("bool", "1", CK::BOOLEAN), key("cidr", "", CK::CIDR), key("cidro", "", CK::CIDR_OPT), key("path", "/a", CK::FILEPATH), key("patho", "", CK::FILEPATH_OPT), key("hp", "", CK::HOSTANDPORT), key("hpo", "", CK::HOSTANDPORT_OPT),
		key("ip", "", CK::IPADDRESS), key("ipo", "", CK::IPADDRESS_OPT), key("ipp", "", CK::IPANDPORT), key("mip", "", CK::MIPADDRESS), key("mipo", "", CK::MIPADDRESS_OPT), key("port", "", CK::PORT), key("porto", "", CK::PORT_OPT),
		key("str", "x", CK::STRING, "^[a-c]{1,3}$"), key("stro", "", CK::STRING_OPT, "^[a-c]{1,3}$") });
}
static bool want(const S &k, const S &s)
{
	if (k == "bool") return s == "0" || s == "1";
	if (k[k.size() - 1] == 'o' && s.empty()) return true;
	if (k.substr(0, 4) == "cidr") return vCIDR(s); if (k.substr(0, 4) == "path") return vChars(s, "/_.-"); if (k.substr(0, 3) == "mip") return vMIP(s); if (k == "ipp") return vIPPort(s); if (k == "ip" || k == "ipo") return vIP(s);
	if (k.substr(0, 2) == "hp") return vHostPort(s); if (k.substr(0, 4) == "port") return vPort(s);
	if (k.substr(0, 3) == "str") { if (s.empty() || s.size() > 3) return false; for (char c : s) if (c < 'a' || c > 'c') return false; return true; }
	fail("no reference for %s", k.c_str());
}
static void valid(ConfigurationTable &t, const S &k, const S &s, uint64_t &n)
{
	if (lead0(s) && k.substr(0, 3) != "str" && k.substr(0, 4) != "path") { t.isValidValue(k, s); return; }	// how leading zeros count is not specified
	bool g = t.isValidValue(k, s), w = want(k, s); n++; MC_CHECK(g == w, "%s is %s as a value of type %s", show("[" + s + "]").c_str(), g ? "accepted" : "rejected", ConfigurationKey::typeToString(t.mSchema[k].getType()).c_str());
}
MC_SCENARIO(C21, short_strings, SEQ, "every string of up to four characters over the relevant ones, for every type", o.quickDepth = 4, o.thoroughDepth = 5)
{
	static const char *const A[] = { "01-+a. x", "0125/.: ", "abcd.^$ ", "/a.: _\n-", "1:+ .-9e" }; fresh(); ConfigurationTable t(DB.c_str(), "test", kinds()); const S &k = KINDS[choose(16, "type")]; const char *al = A[choose(5, "alphabet")]; uint64_t n = 0;
	strs(al, depth(), "", [&](const S &s) { valid(t, k, s, n); }); cases(n); outcome(k);
}
MC_SCENARIO(C21, addresses, SEQ, "address, port, CIDR and list texts built from valid and damaged pieces, for every type")
{
	static const char *const OCT[] = { "0", "1", "255", "256", "99", "", "-1", "1a", "1000" }; static const char *const TAIL[] = { "", ":1", ":65535", ":65536", ":0", ":-1", ":", ":80abc", ": 80", ":80 ", ":+80", "/0", "/32", "/33", "/-1", "/", "/8x", "/ 8", "/24/8", ":80:80", "/4294967296", ":4294967376", ":99999999999999999999", ":080x" };
	fresh(); ConfigurationTable t(DB.c_str(), "test", kinds()); const S &k = KINDS[choose(16, "type")]; int a = choose(9, "octet"); uint64_t n = 0;
	auto all = [&](const S &base) { for (const char *tl : TAIL) { S s = base + tl; valid(t, k, s, n); valid(t, k, " " + s, n); valid(t, k, s + "\n", n); } };
	for (const char *b : OCT) { S p = S(OCT[a]) + "." + b; all(p + ".3.4"); all("10.0." + p); all(p); all("1.2.3.4." + p); } 
	if (a == 0) for (const char *h : { "localhost", "a-b_c.d", "", "ho st", "h\xc3\xa9", "host;rm", "::1", "[::1]", "1.2.3", "http://x", "1.2.3.4" }) all(h);
	if (a == 1) for (const char *x : { "1.2.3.4", "1.2.3.4:5", "1.2.3.4:0", "1.2.3.4x", "", "1.2.3.4:70000", "300.1.1.1" }) for (const char *y : { "5.6.7.8", "5.6.7.8:9", "5.6.7.8:", "5.6.7", "", "256.1.1.1:5" }) for (const char *z : { (const char *)0, "9.9.9.9", "9.9.9.9:65535", "9.9.9.9:65536", "" }) { S s = S(x) + " " + y; if (z) s += S(" ") + z; valid(t, k, s, n); }
	if (a == 2) for (long v = -70; v < 70000; v += v < 70 || v > 65400 ? 1 : 97) { S s = std::to_string(v); valid(t, k, s, n); valid(t, k, "1.2.3.4:" + s, n); MC_CHECK(t.isValidValue(k, (int)v) == want(k, s), "the number %ld as %s", v, k.c_str()); }
	if (a == 3) for (const char *p : { "/etc/passwd", "a b", "../../x", "/tmp/a;rm", "x\n", "\nx", "x\ny", "/a\\b", "~", "/tmp/\xc3\xa9", "$HOME", "a" }) valid(t, k, p, n);
	if (a == 4) { S z("ab"); z += '\0'; z += ";rm -rf"; valid(t, k, z, n); S i("1.2.3.4"); i += '\0'; i += "x"; valid(t, k, i, n); S o("1"); o += '\0'; valid(t, k, o, n); valid(t, k, S("1.2.3.4:80") + '\0', n); valid(t, k, S("1.2.3.4/8") + '\0', n); }
	cases(n); outcome(k);
}
MC_SCENARIO(C21, ranges, SEQ, "integer and decimal ranges against every number around their ends and every short text", o.quickDepth = 4, o.thoroughDepth = 5)
{
	static const struct { const char *v; double lo, hi; bool fp; } R[] = { { "0:100", 0, 100, false }, { "-5:5", -5, 5, false }, { "10:20(5)", 10, 20, false }, { "1:2147483647", 1, 2147483647, false }, { "-2147483648:-1", -2147483648.0, -1, false }, { "0.5:10.5", .5, 10.5, true }, { "-1.5:1.5(0.5)", -1.5, 1.5, true }, { "7:7", 7, 7, false }, { "0:65535", 0, 65535, false } };
	auto &r = R[choose(9, "range")]; fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("r", "0", CK::VALRANGE, r.v) })); uint64_t n = 0;
	auto one = [&](const S &s) {
		size_t i = s.size() && s[0] == '-'; S b = s.substr(i); size_t d = b.find('.'); bool ok, amb = lead0(s) || s == "-0";
		if (!r.fp) ok = digits(b); else { ok = d == S::npos ? digits(b) : digits(b.substr(0, d)) && digits(b.substr(d + 1)); if (!ok && d != S::npos && (digits(b.substr(0, d)) || digits(b.substr(d + 1))) && b.find('.', d + 1) == S::npos && b.find('-') == S::npos) amb = true; }	// "5." and ".5" may go either way
		if (ok) { double v = strtod(s.c_str(), 0); ok = r.lo <= v && v <= r.hi; }
		bool g = t.isValidValue("r", s); if (amb) return; n++; MC_CHECK(g == ok, "[%s] is %s for the range %s", show(s).c_str(), g ? "accepted" : "rejected", r.v);
	};
	strs("015-. +", depth(), "", one); for (int x = -300; x <= 300; x++) { one(std::to_string(x)); if (r.fp) { char b[20]; snprintf(b, sizeof b, "%.2f", x / 20.0); one(b); } }
	for (double e : { r.lo, r.hi }) for (int d = -2; d <= 2; d++) { one(std::to_string((long)e + d)); one(std::to_string((long)e + d) + "x"); one(" " + std::to_string((long)e + d)); if (!r.fp && (long)e + d <= INT_MAX && (long)e + d >= INT_MIN) MC_CHECK(t.isValidValue("r", (int)(e + d)) == (e + d >= r.lo && e + d <= r.hi), "the number %g for %s", e + d, r.v); }
	for (const char *s : { "99999999999", "-99999999999", "4294967296", "4294967303", "18446744073709551617", "1-2", "--5", "-", "5-", "5--", "1.2.3", "0x5", "1e1", "5\n", "" }) one(s);
	cases(n); outcome(r.v);
}
MC_SCENARIO(C21, choices, SEQ, "lists of choices with and without explanations against every name, fragment and combination")
{
	static const struct { const char *v; std::vector<S> names; } C[] = { { "A|first,B|second,CC|third", { "A", "B", "CC" } }, { "0,1,2", { "0", "1", "2" } }, { "only", { "only" } }, { "1|one", { "1" } }, { "yes,no|refuse", { "yes", "no" } }, { "no|refuse,yes", { "yes", "no" } }, { "900|GSM900,1800|GSM1800", { "900", "1800" } } };
	auto &c = C[choose(7, "list")]; bool opt = choose(2, "optional"); fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("c", c.names[0], opt ? CK::CHOICE_OPT : CK::CHOICE, c.v) })); uint64_t n = 0; S v = c.v;
	auto one = [&](const S &s) { bool ok = (opt && s.empty()) || std::find(c.names.begin(), c.names.end(), s) != c.names.end(); bool g = t.isValidValue("c", s); n++; MC_CHECK(g == ok, "[%s] is %s for the choices %s", s.c_str(), g ? "accepted" : "rejected", c.v); };
	for (size_t i = 0; i <= v.size(); i++) for (size_t l = 0; i + l <= v.size(); l++) one(v.substr(i, l)); for (const S &x : c.names) { one(x + " "); one(" " + x); one(x + "|"); one(x + ","); one(x + x); } one("zzz"); for (int i = -3; i < 2000; i++) one(std::to_string(i));
	cases(n); outcome(c.v);
}
MC_SCENARIO(C21, patterns, SEQ, "regular expressions as values, patterns of string keys, and names unknown to the schema")
{
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("re", "", CK::REGEX), key("reo", "", CK::REGEX_OPT), key("imsi", "", CK::STRING, "^[0-9]{3,5}$"), key("any", "", CK::STRING, ".*"), key("sub", "", CK::STRING, "b"), key("bad", "", CK::STRING, "[") }));
	for (const char *r : { "a", "^00101", "[0-9]+", "(a|b)*", ".*", "a{2,3}", "[[:digit:]]" }) for (const char *k : { "re", "reo" }) MC_CHECK(t.isValidValue(k, r), "the expression %s is rejected", r);
	for (const char *r : { "[", "(", "a{2", "[z-a]", "[[:nosuch:]]", "a\\", "*(" }) for (const char *k : { "re", "reo" }) MC_CHECK(!t.isValidValue(k, r), "the expression %s is accepted", r);
	MC_CHECK(t.isValidValue("reo", ""), "an optional expression may be empty");
	for (int l = 0; l < 8; l++) MC_CHECK(t.isValidValue("imsi", S(l, '5')) == (l >= 3 && l <= 5), "%d digits for ^[0-9]{3,5}$", l);
	for (const char *s : { "", "b", "abc", "xyz", "aab" }) { MC_CHECK(t.isValidValue("any", s), "any"); MC_CHECK(t.isValidValue("sub", s) == (strchr(s, 'b') != 0), "%s for b", s); MC_CHECK(!t.isValidValue("bad", s), "bad"); }
	static const struct { const char *pat, *yes, *no; } P[] = { { "^[a-z]+$", "abc", "aBc" }, { "^[A-Z]{2}$", "AB", "ab" }, { "^(ab|cd)+$", "abcd", "abc" }, { "^a\\.b$", "a.b", "axb" }, { "^$", "", "x" }, { "^a+b?$", "aa", "abb" }, { "x{2}", "axxb", "axbx" }, { "^[[:digit:]]+$", "09", "0a" }, { "^(GSM|UMTS)$", "UMTS", "umts" }, { "^[^:]*$", "a b", "a:b" }, { "a|b$", "ac", "bc" } };
	for (auto &p : P) { t.mSchema["p"] = key("p", "", CK::STRING, p.pat); t.mSchema["po"] = key("po", "", CK::STRING_OPT, p.pat); for (const char *k : { "p", "po" }) { MC_CHECK(t.isValidValue(k, p.yes), "[%s] is rejected for %s", p.yes, p.pat); MC_CHECK(!t.isValidValue(k, p.no), "[%s] is accepted for %s", p.no, p.pat); } } t.mSchema.erase("p"); t.mSchema.erase("po");
	size_t n = t.mSchema.size(); for (const char *k : { "nosuch", "", "RE", "re ", "im" }) { for (const char *v : { "", "0", "1", "x", "1.2.3.4" }) MC_CHECK(!t.isValidValue(k, v), "a value for the unknown key %s is accepted", k); MC_CHECK(!t.keyDefinedInSchema(k) && !t.defines(k), "the unknown key %s is now defined", k); }
	MC_CHECK(t.mSchema.size() == n, "asking about unknown keys added %d schema entries", (int)(t.mSchema.size() - n)); MC_CHECK(t.getAllPairs().empty(), "validation stored something"); cases(100); outcome("ok");
}
MC_SCENARIO(C21, long_values, SEQ, "texts and lists of every length up to 66 and around every round number and power of two up to 5000, for every type, and ranges and choices of every length")
{
	unsigned n = chooseSize(5001); fresh(); ConfigurationKeyMap m = kinds(); S cl; for (unsigned i = 0; i < n; i++) cl += (i ? ",c" : "c") + std::to_string(i) + (i % 2 ? "|text " + std::to_string(i) : ""); m["c"] = key("c", "c0", CK::CHOICE, cl); m["co"] = key("co", "c0", CK::CHOICE_OPT, cl); S zeros(n % 90, '9'); m["long"] = key("long", "x", CK::STRING, "^x*$");
	ConfigurationTable t(DB.c_str(), "test", m); uint64_t cnt = 0; const char *const unit[] = { "1", "a", "1.2.3.4 ", "1.2.3.4:5 ", "0", "/a", "9" };
	for (const char *u : unit) { S x; for (unsigned i = 0; i < n; i++) x += u; S y = x; if (y.size() && y[y.size() - 1] == ' ') y.erase(y.size() - 1); for (const S &k : KINDS) { if (strncmp(u, "1.2", 3) && lead0(x)) continue; valid(t, k, x, cnt); valid(t, k, y, cnt); valid(t, k, y + "!", cnt); if (n) { S z = y; z[z.size() / 2] = '!'; valid(t, k, z, cnt); } if (k[0] == 'h') valid(t, k, y + ":80", cnt); } }
	for (unsigned i = 0; i < n; i += n > 400 ? 1 + n / 60 : 1) for (const char *k : { "c", "co" }) { MC_CHECK(t.isValidValue(k, "c" + std::to_string(i)), "choice %u of %u is rejected", i, n); MC_CHECK(!t.isValidValue(k, "c" + std::to_string(i) + "|"), "a fragment of choice %u of %u is accepted", i, n); cnt += 2; }
	if (n) MC_CHECK(t.isValidValue("c", "c" + std::to_string(n - 1)), "the last of %u choices is rejected", n); MC_CHECK(!t.isValidValue("c", "c" + std::to_string(n)) && !t.isValidValue("c", "d"), "a choice beyond the last of %u is accepted", n);
	MC_CHECK(t.isValidValue("long", S(n, 'x')), "%u characters for ^x*$", n); MC_CHECK(!t.isValidValue("long", S(n, 'x') + "y"), "%u characters and another for ^x*$", n); cases(cnt); outcome(std::to_string(n));
}

// ================================================================ C23: durability and failures
static const S BIG(9000, 'b');
struct OpSpec { const char *what; std::function<int(ConfigurationTable &)> f; std::function<void(std::map<S, S> &)> eff; };	// f returns 1 true, 0 false, 2 no verdict
static std::vector<OpSpec> dbOps()
{
	return {
		{ "set an existing key", [](ConfigurationTable &t) { return (int)t.set("a", "new"); }, [](std::map<S, S> &m) { m["a"] = "=new"; } },
		{ "set a new key", [](ConfigurationTable &t) { return (int)t.set("b", "x"); }, [](std::map<S, S> &m) { m["b"] = "=x"; } },
		{ "set a schema key", [](ConfigurationTable &t) { return (int)t.set("num", 7L); }, [](std::map<S, S> &m) { m["num"] = "=7"; } },
		{ "set a long value", [](ConfigurationTable &t) { return (int)t.set("a", BIG); }, [](std::map<S, S> &m) { m["a"] = "=" + BIG; } },
		{ "remove", [](ConfigurationTable &t) { return (int)t.remove("a"); }, [](std::map<S, S> &m) { m.erase("a"); } },
		{ "read", [](ConfigurationTable &t) { t.purge(); S s = rd(t, "a"); return 2; }, [](std::map<S, S> &) {} },
		{ "read a missing key", [](ConfigurationTable &t) { t.purge(); S s = rd(t, "zz"); s = rd(t, "num"); return 2; }, [](std::map<S, S> &) {} },
		{ "list", [](ConfigurationTable &t) { t.getAllPairs(); std::ostringstream o; t.find("", o); return 2; }, [](std::map<S, S> &) {} },
		{ "open another table", [](ConfigurationTable &) { ConfigurationTable u(DB.c_str(), "other", schema({ key("num", "43", CK::VALRANGE, "0:100") })); vfs::disarm(); if (vfs::lastOpen()) return 2; MC_CHECK(rd(u, "a").substr(0, 2) != "!" && rd(u, "keep") == "=k" && rd(u, "num") == "=5", "a table opened during the trouble reads %s %s %s", rd(u, "a").c_str(), rd(u, "keep").c_str(), rd(u, "num").c_str()); return 2; }, [](std::map<S, S> &) {} },
	};
}
// Runs one operation under the armed fault and checks that its answer is the truth.
static void underFault(int kind, int at, int count, bool cached)
{
	static const std::vector<OpSpec> O = dbOps(); const OpSpec &o = O[choose(O.size(), "operation")];
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); std::map<S, S> m;
	MC_CHECK(t.set("a", "old") && t.set("keep", "k") && t.set("num", "5"), "set"); m["a"] = "=old"; m["keep"] = "=k"; m["num"] = "=5"; if (!cached) t.purge();
	vfs::arm((vfs::Kind)kind, at, count); int r = o.f(t); int hit = vfs::fault().hit; vfs::disarm(); idle();
	if (!hit) MC_CHECK(r != 0, "%s fails without any fault", o.what);
	if (kind == vfs::BUSY && count <= 4) MC_CHECK(r != 0, "%s fails although the database was busy only %d times", o.what, count);
	if (r == 1) o.eff(m);
	const char *res = r == 1 ? "reported success" : r == 0 ? "reported failure" : "done";
	for (const char *k : { "a", "b", "keep", "num", "zz" }) { auto i = m.find(k); S w = i != m.end() ? i->second : S(k) == "num" ? "=42" : "!"; S g = rd(t, k); MC_CHECK(g == w, "%s %s, but %s reads %s, expected %s", o.what, res, k, show(g).c_str(), show(w).c_str()); }
	std::map<S, S> raw = rows(); MC_CHECK(raw == m, "%s %s, but the database holds %s, expected %s", o.what, res, str(raw).c_str(), str(m).c_str());
	MC_CHECK(sql("INSERT INTO CONFIG (KEYSTRING,VALUESTRING) VALUES('ext','1')"), "%s %s, and another process can no longer write", o.what, res); m["ext"] = "=1";
	MC_CHECK(t.set("after", "1"), "%s %s, and later writes fail", o.what, res); m["after"] = "=1"; raw = rows(); MC_CHECK(raw == m, "afterwards the database holds %s, expected %s", str(raw).c_str(), str(m).c_str());
	outcome(S(o.what) + res + (hit ? " hit" : ""));
}
MC_SCENARIO(C23, busy, SEQ, "each operation with every lock request refused, from once to forever", o.maxSteps = 100000) { static const int C[] = { 1, 2, 4, 5, 6, 9, 1000000 }; int a = choose(24, "lock request"), c = C[choose(7, "refusals")]; underFault(vfs::BUSY, a, c, choose(2, "cached")); }
MC_SCENARIO(C23, io_error, SEQ, "each operation with every file access failing, once or from then on") { int a = choose(90, "access"), c = choose(2, "lasting") ? 1000000 : 1; underFault(vfs::IOERR, a, c, choose(2, "cached")); }
MC_SCENARIO(C23, disk_full, SEQ, "each operation with every write refused for lack of space, once or from then on") { int a = choose(30, "write"), c = choose(2, "lasting") ? 1000000 : 1; underFault(vfs::FULL, a, c, choose(2, "cached")); }
MC_SCENARIO(C23, out_of_memory, SEQ, "each operation with every memory allocation of the database failing, once or from then on")
{
	static const std::vector<OpSpec> O = dbOps(); int a = choose(160, "allocation"), c = choose(2, "lasting") ? 1000000 : 1; const OpSpec &o = O[choose(8, "operation")];
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); std::map<S, S> m; MC_CHECK(t.set("a", "old") && t.set("keep", "k") && t.set("num", "5"), "set"); m["a"] = "=old"; m["keep"] = "=k"; m["num"] = "=5"; t.purge();
	vfs::arm(vfs::NOMEM, a, c); int r = o.f(t); int hit = vfs::fault().hit; vfs::disarm(); idle(); if (!hit) MC_CHECK(r != 0, "%s fails without any fault", o.what); if (r == 1) o.eff(m);
	for (const char *k : { "a", "b", "keep", "num", "zz" }) { auto i = m.find(k); S w = i != m.end() ? i->second : S(k) == "num" ? "=42" : "!"; S g = rd(t, k); MC_CHECK(g == w, "%s gave %d, but %s reads %s, expected %s", o.what, r, k, show(g).c_str(), show(w).c_str()); }
	std::map<S, S> raw = rows(); MC_CHECK(raw == m, "%s gave %d, but the database holds %s, expected %s", o.what, r, str(raw).c_str(), str(m).c_str()); outcome(S(o.what) + std::to_string(r));
}
MC_SCENARIO(C23, locked_out, SEQ, "each operation while another process holds each kind of lock, then after it lets go")
{
	static const std::vector<OpSpec> O = dbOps(); const OpSpec &o = O[choose(8, "operation")]; int how = choose(3, "lock"); static const char *const L[] = { "BEGIN; SELECT count(*) FROM CONFIG", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE" };
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); std::map<S, S> m; MC_CHECK(t.set("a", "old") && t.set("keep", "k") && t.set("num", "5"), "set"); m["a"] = "=old"; m["keep"] = "=k"; m["num"] = "=5";
	sqlite3 *db; MC_CHECK(!sqlite3_open(DB.c_str(), &db) && !sqlite3_exec(db, L[how], 0, 0, 0), "lock"); int64_t t0 = nowUs(); int r = o.f(t); int64_t took = nowUs() - t0; MC_CHECK(took <= 1000000, "%s waited %lld us for a lock", o.what, (long long)took); MC_CHECK(r != 1, "%s succeeds although the database is locked", o.what);
	sqlite3_exec(db, "COMMIT", 0, 0, 0); idle(); std::map<S, S> raw = rows(); MC_CHECK(raw == m, "%s: the database holds %s", o.what, str(raw).c_str());
	for (const char *k : { "a", "keep", "num", "zz" }) { auto i = m.find(k); S w = i != m.end() ? i->second : "!"; S g = rd(t, k); MC_CHECK(g == w, "%s while locked; after the lock is gone %s reads %s, expected %s", o.what, k, show(g).c_str(), show(w).c_str()); }
	r = o.f(t); MC_CHECK(r != 0, "%s still fails after the lock is gone", o.what); if (r == 1) o.eff(m); raw = rows(); MC_CHECK(raw == m, "%s: then the database holds %s, expected %s", o.what, str(raw).c_str(), str(m).c_str()); outcome(S(o.what) + std::to_string(how));
}
MC_SCENARIO(C23, crash, SEQ, "a crash after every write, with every pattern of unsynced writes lost or torn, for pairs of operations", o.quickDepth = 2, o.thoroughDepth = 3)
{
	static const std::vector<OpSpec> O = dbOps(); fresh(); std::vector<std::map<S, S>> st; std::vector<int> end; std::map<S, S> m; vfs::Image start; std::vector<vfs::LogOp> lg; S what;
	{
		ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); MC_CHECK(t.set("a", "old") && t.set("keep", "k"), "set"); m["a"] = "=old"; m["keep"] = "=k"; start = vfs::image(); vfs::log() = new std::vector<vfs::LogOp>; st.push_back(m);
		for (int i = 0; i < depth(); i++) { int w = choose(5, "operation"); const OpSpec &o = O[w]; bool had = m.count("a"); MC_CHECK(o.f(t) || (w == 4 && !had), "%s fails", o.what); o.eff(m); st.push_back(m); end.push_back(vfs::log()->size()); what += S(o.what) + ", "; }
		lg = *vfs::log();
	}
	int k = choose(lg.size() + 1, "crash point"), lo = 0; while (lo < (int)end.size() && end[lo] <= k) lo++; uint64_t n = 0;
	int hi = std::min<int>(lo + 1, end.size());
	std::vector<std::pair<uint32_t, int>> pats; int u = vfs::unsynced(lg, k); uint32_t all = u >= 31 ? 0x7fffffff : (1u << u) - 1;
	if (u <= (thorough() ? 8 : 4)) for (uint32_t x = 0; x <= all; x++) pats.push_back({ x, -1 }); else { pats.push_back({ all, -1 }); pats.push_back({ 0, -1 }); for (int i = 0; i < u; i++) { pats.push_back({ all & ~(1u << i), -1 }); pats.push_back({ 1u << i, -1 }); pats.push_back({ (1u << i) - 1, -1 }); } }
	for (int i = 0; i < u; i++) { pats.push_back({ all, i }); pats.push_back({ 0, i }); }
	for (auto &p : pats) {
		vfs::restore(vfs::crash(start, lg, k, p.first, p.second)); n++;
		ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); bool ok; std::map<S, S> raw = rows("/db", &ok);
		MC_CHECK(ok, "%scrash after write %d of %d (unsynced kept %x of %d, torn %d): the database is unreadable", what.c_str(), k, (int)lg.size(), p.first, u, p.second);
		MC_CHECK(raw == st[lo] || raw == st[hi], "%scrash after write %d of %d (unsynced kept %x of %d, torn %d): the database holds %s; %d operations had been acknowledged", what.c_str(), k, (int)lg.size(), p.first, u, p.second, str(raw).c_str(), lo);
		for (auto &x : raw) MC_CHECK(rd(t, x.first) == x.second, "after the crash %s reads %s", x.first.c_str(), show(rd(t, x.first)).c_str());
		MC_CHECK(t.set("post", "1") && rows().count("post"), "after the crash the table cannot be written");
	}
	cases(n); outcome(what);
}

// ================================================================ C24: how old a value may be
// Two tables on one database, another process writing to it, and the clock, in every order.
static void stale(int nt, bool back)
{
	fresh(); ConfigurationKeyMap sc = schema({ key("a", "42", CK::VALRANGE, "0:100") });
	std::vector<ConfigurationTable *> t; for (int i = 0; i < nt; i++) t.push_back(new ConfigurationTable(DB.c_str(), "test", sc)); struct Del { std::vector<ConfigurationTable *> &t; ~Del() { for (auto *x : t) delete x; } } del{ t };
	static const char *const K[] = { "a", "b" }; struct Ev { int64_t at; S v; }; std::vector<Ev> h[2]; int64_t now = 0; h[0].push_back({ -1000000000, "=42" }); h[1].push_back({ -1000000000, "!" });
	std::vector<int> least(nt * 2, 0);	// the oldest version table i may still return for key k
	int val = 0; int base = 2 * nt + 2; 
	auto check = [&](int i, int k) {
		S g = rd(*t[i], K[k]); bool ok = false; S cur = h[k].back().v;
		for (unsigned j = least[i * 2 + k]; j < h[k].size(); j++) { int64_t until = j + 1 < h[k].size() ? h[k][j + 1].at : INT64_MAX; if (h[k][j].v == g && until > now - 3000000) { ok = true; least[i * 2 + k] = j; break; } }
		MC_CHECK(ok, "at %.1f s table %d reads %s as %s; the database has held %s for %.1f s", now / 1e6, i, K[k], g.c_str(), cur.c_str(), (now - h[k].back().at) / 1e6);
	};
	for (int s = 0; s < depth(); s++) {
		int o = choose(base + 3 + 3 * nt + 1 + (back ? 1 : 0), "step");
		if (o < 2 * nt) { check(o / 2, o % 2); continue; }
		o -= 2 * nt;
		if (o < 2) { S v = std::to_string(++val); MC_CHECK(sql(S("REPLACE INTO CONFIG (KEYSTRING,VALUESTRING) VALUES('") + K[o] + "'," + q(v) + ")"), "external write"); h[o].push_back({ now, "=" + v }); continue; }
		o -= 2;
		if (o < 3) { static const int64_t D[] = { 1000000, 1999999, 3000000 }; advance(D[o]); now += D[o]; continue; }
		o -= 3;
		if (o < nt) { t[o]->purge(); for (int k = 0; k < 2; k++) least[o * 2 + k] = h[k].size() - 1; continue; }
		o -= nt;
		if (o < nt) { S v = std::to_string(++val); MC_CHECK(t[o]->set("a", v), "set"); h[0].push_back({ now, "=" + v }); least[o * 2] = h[0].size() - 1; continue; }
		o -= nt;
		if (o < nt) { bool had = h[0].back().v != "=42"; MC_CHECK(t[o]->remove("a") == had, "remove of a %s key", had ? "stored" : "missing"); if (had) h[0].push_back({ now, "=42" }); least[o * 2] = h[0].size() - 1; continue; }
		o -= nt;
		if (!o) { MC_CHECK(sql("DELETE FROM CONFIG WHERE KEYSTRING='a'"), "external removal"); if (h[0].back().v != "=42") h[0].push_back({ now, "=42" }); continue; }
		setClock(1700000000 - 86400, 0);	// the clock is set back a day
	}
	for (int i = 0; i < nt; i++) for (int k = 0; k < 2; k++) check(i, k);
	advance(3000000); now += 3000000; for (int i = 0; i < nt; i++) for (int k = 0; k < 2; k++) { S g = rd(*t[i], K[k]); MC_CHECK(g == h[k].back().v, "three seconds after the last change table %d reads %s as %s, expected %s", i, K[k], g.c_str(), h[k].back().v.c_str()); }
	idle(); outcome(std::to_string(val));
}
MC_SCENARIO(C24, one_table, SEQ, "one table, another process writing, reads, purges and clock steps in every order", o.quickDepth = 4, o.thoroughDepth = 5) { stale(1, false); }
MC_SCENARIO(C24, clock_back, SEQ, "the same with the clock set back", o.quickDepth = 4, o.thoroughDepth = 5) { stale(1, true); }
MC_SCENARIO(C24, two_tables, SEQ, "two tables on one database, both reading and writing", o.quickDepth = 3, o.thoroughDepth = 5) { stale(2, false); }
static ConfigurationTable *hooked; static int hookCalls;
static void purgeHook(void *, int, const char *, const char *, sqlite3_int64) { hookCalls++; hooked->purge(); }
MC_SCENARIO(C24, update_hook, SEQ, "a table whose update hook purges its cache, as the programs install it, under all short operation sequences", o.quickDepth = 4, o.thoroughDepth = 5)
{
	fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("a", "42", CK::VALRANGE, "0:100") })); hooked = &t; hookCalls = 0; t.setUpdateHook(purgeHook); Ref r; r.sch = t.mSchema; int writes = 0; static const char *const K[] = { "a", "b" };
	for (int i = 0; i < depth(); i++) { int o = choose(7, "op"), k = o & 1; if (o < 2) { MC_CHECK(t.set(K[k], (long)i), "set"); r.row[K[k]] = "=" + std::to_string(i); writes++; } else if (o < 4) { bool h = r.row.erase(K[k]); MC_CHECK(t.remove(K[k]) == h, "remove"); if (h) writes++; } else if (o < 6) checkKey(t, r, K[k]); else t.purge(); }
	checkAll(t, r, { "a", "b" }); MC_CHECK(hookCalls >= writes, "%d changes, %d calls of the hook", writes, hookCalls); idle(); outcome(str(r.row));
}

// ================================================================ C25: the schema is reported truthfully
static const char *const TYPES[] = { "boolean", "multiple choice (optional)", "multiple choice", "CIDR notation (optional)", "CIDR notation", "file path (optional)", "file path", "hostname or IP address and port (optional)", "hostname or IP address and port", "IP address (optional)", "IP address", "IP address and port", "space-separated list of IP addresses (optional)", "space-separated list of IP addresses", "IP port (optional)", "IP port", "regular expression (optional)", "regular expression", "string (optional)", "string", "value range" };
MC_SCENARIO(C25, default_sql, SEQ, "generated SQL for schemas with every type and awkward texts, run on an empty, an older and an edited database")
{
	static const std::vector<S> T = nasty(); fresh(); int base = choose(3, "database"), kk = choose(6, "texts"); ConfigurationKeyMap m; int n = 0;
	for (unsigned i = kk; i < T.size(); i += 6) { m[S("k.") + T[i]] = key(S("k.") + T[i], T[(i + 5) % T.size()], (CK::Type)(n % 21), "A|x,B|y", (n + kk) % 2, T[(i * 3 + 1) % T.size()], (CK::VisibilityLevel)(n % 6)); n++; }
	m["e.mpty"] = key("e.mpty", "", CK::STRING_OPT, ".*", false, "", CK::FACTORY); ConfigurationTable t("/schema", "test", m); S s = t.getDefaultSQL("prog", "1.0 it's"); S k0 = t.mSchema.begin()->first, k1 = t.mSchema.rbegin()->first; std::map<S, S> wantv; 
	if (base) { ConfigurationTable o(DB.c_str(), "old"); MC_CHECK(o.set(k0, "mine") && o.set("unrelated", "kept"), "set"); wantv["unrelated"] = "=kept"; if (base == 2) MC_CHECK(o.set(k1, "too"), "set"); }
	for (auto &p : t.mSchema) wantv[p.first] = "=" + p.second.getDefaultValue(); if (base) wantv[k0] = "=mine"; if (base == 2) wantv[k1] = "=too";
	for (int run = 0; run < 2; run++) {
		MC_CHECK(sql(s), "the generated SQL does not execute"); std::map<S, S> raw = rows(); MC_CHECK(raw == wantv, "run %d leaves %s, expected %s", run, str(raw).c_str(), str(wantv).c_str());
	}
	sqlite3 *db; sqlite3_stmt *st; sqlite3_open(DB.c_str(), &db); sqlite3_prepare_v2(db, "SELECT KEYSTRING,STATIC,OPTIONAL,COMMENTS FROM CONFIG", -1, &st, 0); int seen = 0;
	while (sqlite3_step(st) == SQLITE_ROW) {
		S k = (const char *)sqlite3_column_text(st, 0); if (!t.mSchema.count(k) || (base && (k == k0 || k == k1))) continue; CK &c = t.mSchema[k]; seen++; const char *cm = (const char *)sqlite3_column_text(st, 3); S d = cm ? cm : "";
		MC_CHECK(sqlite3_column_int(st, 1) == c.isStatic() && sqlite3_column_int(st, 2) == 0, "flags of [%s]", show(k).c_str()); S w = (c.getType() == CK::BOOLEAN ? "1=enabled, 0=disabled - " : "") + c.getDescription() + (c.isStatic() ? "  Static." : ""); MC_CHECK(d == w, "the comment of [%s] is [%s], expected [%s]", show(k).c_str(), show(d).c_str(), show(w).c_str());
	}
	sqlite3_finalize(st); sqlite3_close(db); ConfigurationTable u(DB.c_str(), "user", m); for (auto &p : wantv) MC_CHECK(rd(u, p.first) == p.second, "a table on the result reads [%s] as [%s]", show(p.first).c_str(), show(rd(u, p.first)).c_str()); cases(seen); outcome(std::to_string(seen));
}
static S rep(S s, char c) { S r; for (char x : s) { if (x == c) r += '\\'; r += x; } return r; }
MC_SCENARIO(C25, tex, SEQ, "generated TeX for schemas with every subset of visibility levels")
{
	unsigned mask = choose(64, "levels present"); fresh(); ConfigurationKeyMap m; static const char *const LV[] = { "Cust.Plain_x", "Site.A_b", "Tune.C^d", "Warn.E", "Dev.F", "Fact.G" }; static const int SEC[] = { 1, 0, 1, 1, 2, 2 }; int n = 0;
	for (int i = 0; i < 6; i++) if (mask >> i & 1) for (int j = 0; j < 2; j++) { S k = S(LV[i]) + (j ? "2" : ""); m[k] = key(k, "d", CK::STRING, ".*", false, "text_" + k + " of ^ it", (CK::VisibilityLevel)i); }
	ConfigurationTable t(DB.c_str(), "test", m); S s = t.getTeX("pro_g", "v^1"); std::istringstream is(s); S l; int sec = -1, open = 0; std::multiset<S> got[3], want[3];
	for (auto &p : t.mSchema) { int v = p.second.getVisibility(); want[SEC[v]].insert(rep(rep("\t\\item \\texttt{" + p.first + "} -- " + p.second.getDescription(), '_'), '^')); }
	while (getline(is, l)) { if (l.find("\\section{") == 0) { MC_CHECK(!open, "section inside a list"); sec++; } else if (l == "\\begin{itemize}") open++; else if (l == "\\end{itemize}") open--; else if (l.find("\\item") != S::npos) { MC_CHECK(open == 1 && sec >= 0 && sec < 3, "stray item"); got[sec].insert(l); n++; } }
	MC_CHECK(sec == 2 && !open, "%d sections, %d open lists", sec + 1, open); for (int i = 0; i < 3; i++) MC_CHECK(got[i] == want[i], "section %d lists %d keys, expected %d, or their text differs", i, (int)got[i].size(), (int)want[i].size());
	MC_CHECK(s.find("pro\\_g") != S::npos && s.find("v\\^1") != S::npos, "program and version"); cases(n); outcome(std::to_string(n));
}
MC_SCENARIO(C25, queries, SEQ, "names, fragments, static flags and cross checks over schemas with overlapping names")
{
	fresh(); static const S N[] = { "GSM.Radio.Band", "GSM.Radio", "gsm.radio", "Log.Level", "Control.X", "A", "" }; ConfigurationKeyMap m; int mask = choose(128, "keys"); for (int i = 0; i < 7; i++) if (mask >> i & 1) m[N[i]] = key(N[i], "app", CK::STRING, ".*", i & 1);
	ConfigurationTable t(DB.c_str(), "test", m); uint64_t n = 0; MC_CHECK(t.keyDefinedInSchema("Log.Level") && t.keyDefinedInSchema("Log.File") && t.keyDefinedInSchema("Log.Alarms.Max") && t.keyDefinedInSchema("Control.NumSQLTries"), "the common keys are missing");
	for (int i = 0; i < 7; i++) { bool in = mask >> i & 1 || N[i] == "Log.Level"; MC_CHECK(t.keyDefinedInSchema(N[i]) == in, "%s", N[i].c_str()); if (N[i] == "Log.Level") { MC_CHECK(rd(t, N[i]) == "=NOTICE", "Log.Level"); continue; } MC_CHECK(t.isStatic(N[i]) == (in && (i & 1)), "static %s", N[i].c_str()); MC_CHECK(rd(t, N[i]) == (in ? "=app" : "!"), "value of %s", N[i].c_str()); }
	for (const char *s : { "", "GSM", "gsm", "Radio", "Radio.", "Log", "x", "A", ".", "Band", "GSM.Radio.Band", "zzz" }) { ConfigurationKeyMap g = t.getSimilarKeys(s); int e = 0; for (auto &p : t.mSchema) { bool in = p.first.find(s) != S::npos; e += in; MC_CHECK(g.count(p.first) == in, "similar to %s: %s", s, p.first.c_str()); if (in) MC_CHECK(g[p.first].getName() == p.first && g[p.first].getDefaultValue() == p.second.getDefaultValue(), "entry %s", p.first.c_str()); } MC_CHECK((int)g.size() == e, "similar to %s", s); n++; }
	MC_CHECK(!t.isStatic("nosuch") && !t.keyDefinedInSchema("nosuch"), "unknown"); MC_CHECK(t.crossCheck("A").empty(), "cross check without a hook"); t.setCrossCheckHook([](const S &k) { return std::vector<S>{ "w1 " + k, "w2" }; }); auto v = t.crossCheck("A"); MC_CHECK(v.size() == 2 && v[0] == "w1 A" && v[1] == "w2", "cross check"); cases(n); outcome(std::to_string(mask));
}
MC_SCENARIO(C25, ranges, SEQ, "the ends and the step of ranges over all pairs of numbers of many shapes")
{
	static const char *const N[] = { "0", "1", "-5", "10", "99", "0.5", "-0.25", "123456789", "-2147483648", "1e3", "" }; static const char *const ST[] = { 0, "1", "2", "0.5", "100", "0.001", "-1" }; const char *a = N[choose(11, "lower")], *st = ST[choose(7, "step")]; uint64_t n = 0;
	for (const char *b : N) for (int f = 0; f < 2; f++) { S v = S(a) + ":" + b + (st ? S("(") + st + ")" : S()), lo = "x", hi = "y", step = "z"; CK k = key("r", "1", CK::VALRANGE, v, f, "d"); CK::getMinMaxStepping(k, lo, hi, step); MC_CHECK(lo == a && hi == b && step == (st ? st : "1"), "range %s is reported as %s to %s by %s", v.c_str(), lo.c_str(), hi.c_str(), step.c_str()); MC_CHECK(k.getValidValues() == v, "range %s reads %s", v.c_str(), k.getValidValues().c_str()); n++; }
	cases(n); outcome(S(a) + (st ? st : ""));
}
MC_SCENARIO(C25, large, SEQ, "schemas of up to 301 keys, and texts of every length around round numbers to 5000")
{
	unsigned n = chooseSize(5001); bool many = choose(2, "kind") == 0; if (many ? n > 301 : n > 5001) skip(); fresh(); ConfigurationKeyMap m; S big(n, 'w'); for (unsigned i = 0; i < n; i++) if (i % 11 == 10) big[i] = "'%_\n\""[i / 11 % 5];
	if (many) for (unsigned i = 0; i < n; i++) { S k = "Key." + std::to_string(i); m[k] = key(k, "v" + std::to_string(i), CK::STRING_OPT, ".*", i % 3 == 0, "says " + std::to_string(i), i % 2 ? CK::CUSTOMER : CK::DEVELOPER); } else { S k = "Key." + S(n, 'k'); m[k] = key(k, "dflt", CK::STRING_OPT, ".*", false, "d"); m["Key.v"] = key("Key.v", big, CK::STRING_OPT, ".*", true, "d"); m["Key.d"] = key("Key.d", "x", CK::STRING_OPT, ".*", false, big); }
	ConfigurationTable t("/schema", "test", m); MC_CHECK(sql(t.getDefaultSQL("prog", "1")), "the generated SQL does not execute"); std::map<S, S> raw = rows(), want; for (auto &p : t.mSchema) want[p.first] = "=" + p.second.getDefaultValue(); MC_CHECK(raw.size() == want.size(), "%u keys, %zu rows instead of %zu", n, raw.size(), want.size()); MC_CHECK(raw == want, "the rows of a schema of %u keys or characters differ", n);
	sqlite3 *db; sqlite3_stmt *st; sqlite3_open(DB.c_str(), &db); sqlite3_prepare_v2(db, "SELECT KEYSTRING,STATIC,COMMENTS FROM CONFIG", -1, &st, 0); while (sqlite3_step(st) == SQLITE_ROW) { S k = (const char *)sqlite3_column_text(st, 0); if (!m.count(k)) continue; const char *c = (const char *)sqlite3_column_text(st, 2); S d = c ? c : ""; MC_CHECK(sqlite3_column_int(st, 1) == m[k].isStatic(), "static flag of a key"); MC_CHECK(d == m[k].getDescription() + (m[k].isStatic() ? "  Static." : ""), "the description of a key of %zu characters has %zu", m[k].getDescription().size(), d.size()); } sqlite3_finalize(st); sqlite3_close(db);
	S x = t.getTeX("p", "1"), l; std::istringstream is(x); unsigned items = 0, e = 0; size_t p = 0; while ((p = x.find("\\item \\texttt{Key.", p)) != S::npos) { items++; p++; } e = m.size(); MC_CHECK(items == e, "TeX lists %u keys of %u", items, e);
	ConfigurationKeyMap g = t.getSimilarKeys("Key."); MC_CHECK(g.size() == e, "%zu similar keys of %u", g.size(), e); g = t.getSimilarKeys(many ? "Key.1" : "Key." + S(n, 'k')); for (auto &q : m) MC_CHECK(g.count(q.first) == (q.first.find(many ? "Key.1" : "Key." + S(n, 'k')) != S::npos), "similar keys to a part of %u", n);
	for (auto &q : m) { std::ostringstream o; CK::printDescription(q.second, o); MC_CHECK(o.str().find(" - description:      " + q.second.getDescription() + "\n") != S::npos, "the printed description of a key is not its %zu characters", q.second.getDescription().size()); }
	outcome(std::to_string(n));
}
MC_SCENARIO(C25, descriptions, SEQ, "printed descriptions of keys of every type, visibility, scope, unit and default")
{
	int ty = choose(21, "type"), vis = choose(6, "visibility"), sc = choose(32, "scope"); uint64_t n = 0; static const char *const VIS[] = { "customer - ", "customer site - ", "customer tune - ", "customer warn - ", "developer - ", "factory - " };
	static const char *const VV[] = { "", "A|one,B|two", "0,1,2", "1:10", "-5:5(5)", "0.5:1.5", "^[a-z]+$", "x|only" };
	for (const char *vv : VV) for (int st = 0; st < 2; st++) for (int d = 0; d < 2; d++) for (int u = 0; u < 2; u++) {
		bool rng = strchr(vv, ':') != 0; if ((ty == CK::VALRANGE) != rng && ty == CK::VALRANGE) continue;
		CK k = key("Name.X", d ? "dflt" : "", (CK::Type)ty, vv, st, "what it does", (CK::VisibilityLevel)vis, sc, u ? "seconds" : ""); std::ostringstream o; ConfigurationKey::printDescription(k, o); std::multiset<S> got, want; S l; std::istringstream is(o.str()); while (getline(is, l)) got.insert(l);
		want.insert(" - description:      what it does"); if (u) want.insert(" - units:            seconds"); want.insert(S(" - type:             ") + TYPES[ty]); if (d) want.insert(" - default value:    dflt"); S vl; for (const S &g : got) if (g.find(" - visibility level: ") == 0) vl = g; MC_CHECK(vl.find(VIS[vis]) == 21, "visibility %d is printed as %s", vis, vl.c_str()); want.insert(vl); want.insert(S(" - static:           ") + (st ? "1" : "0"));
		S v = vv; if (ty == CK::VALRANGE) { size_t c = v.find(':'), p = v.find('('); want.insert(" - valid values:     from " + v.substr(0, c) + " to " + v.substr(c + 1, p == S::npos ? p : p - c - 1)); }
		else if (ty == CK::CHOICE) for (const S &x : split(v, ',')) { size_t b = x.find('|'); want.insert(" - valid values:     " + x.substr(0, b) + (b == S::npos ? "" : " = " + x.substr(b + 1))); }
		else if (ty == CK::BOOLEAN) { want.insert(" - valid values:     0 = disabled"); want.insert(" - valid values:     1 = enabled"); }
		else if (ty == CK::STRING) want.insert(" - valid val regex:  " + v); else if (v.size()) want.insert(" - raw valid values: " + v);
		if (sc & 1) want.insert(" - scope:            value must be unique across all nodes"); if (sc & 2) want.insert(" - scope:            value must be the same across all nodes"); if (sc & 4) want.insert(" - scope:            value must be unique across all neighbors"); if (sc & 8) want.insert(" - scope:            value must be the same across all neighbors"); if (sc & 16) want.insert(" - scope:            specific to each individual node");
		for (const S &w : want) MC_CHECK(got.count(w) == want.count(w), "type %d valid values %s scope %d: the line [%s] is printed %d times, expected %d, in: %s", ty, vv, sc, w.c_str(), (int)got.count(w), (int)want.count(w), show(o.str()).c_str()); MC_CHECK(got.size() == want.size(), "type %d valid values %s scope %d: %d lines, expected %d: %s", ty, vv, sc, (int)got.size(), (int)want.size(), show(o.str()).c_str()); n++;
		for (const char *cur : { "", "dflt", "other" }) { std::ostringstream p; ConfigurationKey::printKey(k, cur, p); S w = S("Name.X ") + (*cur ? cur : "(disabled)") + (S(cur) == k.getDefaultValue() ? "     [default]" : "") + "\n"; MC_CHECK(p.str() == w, "a key with value [%s] and default [%s] is printed as [%s]", cur, k.getDefaultValue().c_str(), show(p.str()).c_str()); }
	}
	cases(n); outcome(std::to_string(ty));
}

// ================================================================ C26: key=value lists
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long heldBy(const std::function<void()> &f) { f(); f(); long a = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 4; i++) f(); return (long)__sanitizer_get_current_allocated_bytes() - a; }
static void kvCheck(const std::vector<S> &items, const S &line, bool whole)
{
	std::map<S, S> ref; for (const S &x : items) { size_t e = x.find('='); if (e != S::npos) ref[x.substr(0, e)] = x.substr(e + 1); }
	SimpleKeyValue kv; if (whole) kv.addItems(line.c_str()); else for (const S &x : items) kv.addItem(x.c_str());
	for (const char *k : { "a", "b", "ab", "", "1", "-", "=", " " }) {
		const char *g = kv.get(k); auto i = ref.find(k); MC_CHECK((g != 0) == (i != ref.end()), "[%s]: key [%s] is %s", line.c_str(), k, g ? g : "missing"); bool ok = !g; long v = kv.getNum(k, ok); MC_CHECK(ok == (i != ref.end()), "[%s]: number [%s] is reported as %s", line.c_str(), k, ok ? "valid" : "not valid");
		if (g) { MC_CHECK(i->second == g, "[%s]: [%s] is [%s], expected [%s]", line.c_str(), k, g, i->second.c_str()); long w = strtol(g, 0, 10); MC_CHECK(v == w && kv.getNumOrBust(k) == w && kv.getStrOrBust(k) == g, "[%s]: number of [%s] is %ld", line.c_str(), k, v); }
		else { int n = 0; try { kv.getNumOrBust(k); } catch (SimpleKeyValueException &e) { n += strstr(e.what(), k) != 0; } try { kv.getStrOrBust(k); } catch (SimpleKeyValueException &e) { n += strstr(e.what(), k) != 0; } MC_CHECK(n == 2, "a missing key is not reported"); }
	}
}
MC_SCENARIO(C26, lines, SEQ, "every line of up to five characters over keys, equals signs, spaces and digits", o.quickDepth = 5, o.thoroughDepth = 7)
{
	static const char A[] = "ab= 1-"; int f = choose(6, "first"), f2 = choose(6, "second"); uint64_t n = 0; std::function<void(const S &)> one = [&](const S &s) { std::vector<S> items = split(s, ' '); kvCheck(items, s, true); kvCheck(items, s, false); n++; };
	if (f2 == 0) one(S(1, A[f])); if (!f && !f2) one(""); strs(A, depth(), S(1, A[f]) + A[f2], one); cases(n); outcome(std::to_string(f));
}
MC_SCENARIO(C26, sequences, SEQ, "all sequences of items, single and in lines, with repeated keys", o.quickDepth = 4, o.thoroughDepth = 5)
{
	static const char *const I[] = { "a=1", "a=2", "b=a=3", "ab", "=x", "a=", "1=-7 b=4", "  a=9  " }; SimpleKeyValue kv; std::map<S, S> ref;
	for (int i = 0; i < depth(); i++) { S x = I[choose(8, "item")]; bool ln = x.find(' ') != S::npos; if (ln) kv.addItems(x.c_str()); else if (choose(2, "as a line")) kv.addItems(x.c_str()); else kv.addItem(x.c_str()); for (const S &y : split(x, ' ')) { size_t e = y.find('='); if (e != S::npos) ref[y.substr(0, e)] = y.substr(e + 1); } }
	for (const char *k : { "a", "b", "ab", "", "1", "x" }) { const char *g = kv.get(k); auto i = ref.find(k); MC_CHECK(g ? i != ref.end() && i->second == g : i == ref.end(), "[%s] is %s", k, g ? g : "missing"); } outcome(std::to_string(ref.size()));
}
MC_SCENARIO(C26, memory, SEQ, "nothing is leaked by adding items of every form")
{
	static const char *const I[] = { "a=1", "noequals", "a=1 b=2", "a b c", "", "=", " a=1 ", "x=y=z" }; const char *s = I[choose(8, "text")]; bool ln = choose(2, "line");
	long d = heldBy([&] { SimpleKeyValue kv; if (ln) kv.addItems(s); else kv.addItem(s); }); MC_CHECK(d == 0, "adding [%s] leaves %ld bytes allocated", s, d); outcome(s);
}
MC_SCENARIO(C26, hash_strings, SEQ, "hash strings: every pair of short strings compared, assigned and used as map keys", o.quickDepth = 2, o.thoroughDepth = 3)
{
	std::vector<S> T; strs("ab\x01\x7fZ", depth(), "", [&](const S &s) { T.push_back(s); }); const S &a = T[choose(T.size(), "string")]; uint64_t n = 0; std::map<HashString, int> mp;
	for (unsigned i = 0; i < T.size(); i++) mp[HashString(T[i])] = i; for (unsigned i = 0; i < T.size(); i++) MC_CHECK(mp.count(HashString(T[i])) && mp[HashString(T[i].c_str())] == (int)i, "map of hash strings confuses [%s]", show(T[i]).c_str()); MC_CHECK(mp.size() == T.size(), "map size");
	for (const S &b : T) {
		HashString x(a), y(b.c_str()), z; S c = b; z = c; HashString w; w = a.c_str(); MC_CHECK((S)z == b && (S)w == a && z.hash() == y.hash() && w.hash() == x.hash(), "assignment");
		bool eq = x == y, lt = x < y, gt = x > y; MC_CHECK(eq == (a == b), "[%s] and [%s] compare %s", show(a).c_str(), show(b).c_str(), eq ? "equal" : "different"); MC_CHECK(eq + lt + gt == 1, "[%s] and [%s]: equal %d, less %d, greater %d", show(a).c_str(), show(b).c_str(), eq, lt, gt); MC_CHECK((y < x) == gt && (y > x) == lt, "order is not antisymmetric"); n++;
	}
	cases(n); outcome(show(a));
}

// ================================================================ C27: the sqlite helpers
static void noStatementsC27(sqlite3 *db) { if (sqlite3_stmt *x = sqlite3_next_stmt(db, 0)) fail("a query is not given back: %s", sqlite3_sql(x)); }
static sqlite3 *odb() { sqlite3 *db; MC_CHECK(!sqlite3_open(DB.c_str(), &db), "open"); return db; }
MC_SCENARIO(C27, attributes, SEQ, "every awkward text as attribute name with every one as value, overwritten and kept apart")
{
	static const std::vector<S> T = nasty(); fresh(); sqlite3 *db = odb(); const S &k = T[choose(T.size(), "name")]; uint64_t n = 0; MC_CHECK(sqlite_get_attr(db, k.c_str()) == "", "an attribute before any was set"); MC_CHECK(sqlite_set_attr(db, "bystander", "left alone"), "set");
	for (const S &v : T) { MC_CHECK(sqlite_set_attr(db, k.c_str(), v.c_str()), "setting attribute [%s] to [%s] fails", show(k).c_str(), show(v).c_str()); S g = sqlite_get_attr(db, k.c_str()); MC_CHECK(g == v, "attribute [%s] is [%s], expected [%s]", show(k).c_str(), show(g).c_str(), show(v).c_str()); MC_CHECK(sqlite_get_attr(db, "bystander") == "left alone" && sqlite_get_attr(db, "nosuch") == "", "another attribute changed"); n++; }
	sqlite3 *d2 = odb(); MC_CHECK(sqlite_get_attr(d2, k.c_str()) == T.back(), "another connection reads [%s]", show(sqlite_get_attr(d2, k.c_str())).c_str()); idle(); cases(n); outcome(show(k));
}
struct Row { S k; unsigned u; S v; bool null; };
static std::vector<Row> table(sqlite3 *db)
{
	static const std::vector<S> T = nasty(); static const unsigned U[] = { 0, 1, 2, 2147483647u, 2147483648u, 4294967295u }; std::vector<Row> r; MC_CHECK(!sqlite3_exec(db, "CREATE TABLE TT (K TEXT, U INTEGER, V TEXT)", 0, 0, 0), "create"); sqlite3_exec(db, "BEGIN", 0, 0, 0);
	for (unsigned i = 0; i < T.size(); i++) { Row x{ T[i], i < 6 ? U[i] : 100 + i, T[(i * 11 + 2) % T.size()], i % 9 == 4 }; r.push_back(x); S s = "INSERT INTO TT VALUES(" + q(x.k) + "," + std::to_string(x.u) + "," + (x.null ? S("NULL") : q(x.v)) + ")"; MC_CHECK(!sqlite3_exec(db, s.c_str(), 0, 0, 0), "insert"); }
	sqlite3_exec(db, "COMMIT", 0, 0, 0); return r;
}
MC_SCENARIO(C27, lookups, SEQ, "every lookup form for every awkward key and number, present and absent, over a table holding them all")
{
	fresh(); sqlite3 *db = odb(); std::vector<Row> R = table(db); uint64_t n = 0; unsigned i = choose(R.size() + 4, "key"); bool in = i < R.size(); S k = in ? R[i].k : i % 4 == 0 ? "absent" : i % 4 == 1 ? "" : i % 4 == 2 ? "it''s" : "K"; unsigned u = in ? R[i].u : 77 + i % 4; S v = in && !R[i].null ? R[i].v : "";
	MC_CHECK(sqlite3_exists(db, "TT", "K", k.c_str()) == in, "exists [%s]", show(k).c_str()); MC_CHECK(!sqlite3_exists(db, "NOTABLE", "K", k.c_str()), "exists without the table");
	unsigned uu = 12345; MC_CHECK(sqlite3_single_lookup(db, "TT", "K", k.c_str(), "U", uu) == in && uu == (in ? u : 12345), "number of [%s] is %u, expected %u", show(k).c_str(), uu, u);
	char *c = (char *)1; MC_CHECK(sqlite3_single_lookup(db, "TT", "K", k.c_str(), "V", c) == in, "lookup of [%s]", show(k).c_str()); MC_CHECK(in && !R[i].null ? c && v == c : !c, "value of [%s] is %s", show(k).c_str(), c ? show(c).c_str() : "null"); free(c);
	c = (char *)1; MC_CHECK(sqlite3_single_lookup(db, "TT", "U", u, "V", c) == in, "lookup of %u", u); MC_CHECK(in && !R[i].null ? c && v == c : !c, "value of %u is %s", u, c ? show(c).c_str() : "null"); free(c);
	S s = "unset"; MC_CHECK(sqlite_single_lookup(db, "TT", "K", k.c_str(), "V", s) == in && s == (in ? v : "unset"), "text of [%s] is [%s]", show(k).c_str(), show(s).c_str()); s = "unset"; MC_CHECK(sqlite_single_lookup(db, "TT", "U", u, "K", s) == in && s == (in ? k : "unset"), "key of %u is [%s]", u, show(s).c_str());
	c = (char *)1; MC_CHECK(!sqlite3_single_lookup(db, "NOTABLE", "K", k.c_str(), "V", c) && !c, "lookup in a missing table"); MC_CHECK(!sqlite3_single_lookup(db, "TT", "NOCOL", u, "V", c) && !c, "lookup by a missing column"); s = "unset"; MC_CHECK(!sqlite_single_lookup(db, "TT", "K", k.c_str(), "NOCOL", s) && s == "unset", "lookup of a missing column");
	{ sqlQuery x(db, "TT", "K,U,V", "K", k.c_str()); MC_CHECK(x.sqlSuccess() == in && x.sqlResultSize() == (in ? 3 : 0), "query for [%s]: %d columns", show(k).c_str(), x.sqlResultSize()); MC_CHECK(x.getResultText(0) == (in ? k : "") && x.getResultText(2) == v && x.getResultInt(1) == (in ? u : 0), "query result for [%s]", show(k).c_str()); MC_CHECK(!x.sqlStep() && !x.sqlSuccess() && x.sqlResultSize() == 0 && x.getResultText() == "" && x.getResultInt() == 0 && !x.sqlStep(), "after the last row"); }
	{ sqlQuery x(db, "TT", "V,K", "U", u); MC_CHECK(x.sqlSuccess() == in && x.getResultText() == v && x.getResultText(1) == (in ? k : ""), "query for %u", u); }
	{ sqlQuery x(db, "NOTABLE", "*", "K", k.c_str()); MC_CHECK(!x.sqlSuccess() && !x.sqlStep() && x.getResultText() == "" && x.getResultInt() == 0 && x.sqlResultSize() == 0, "query of a missing table"); }
	idle(); MC_CHECK(sql("UPDATE TT SET V='z' WHERE 0"), "the database stays locked after lookups"); n = 12; cases(n); outcome(show(k));
}
MC_SCENARIO(C27, rows, SEQ, "queries returning no, one and many rows, stepped to the end or left early")
{
	fresh(); sqlite3 *db = odb(); int n = choose(6, "rows"), stop = choose(8, "steps"); MC_CHECK(!sqlite3_exec(db, "CREATE TABLE N (I INTEGER, T TEXT, B)", 0, 0, 0), "create"); for (int i = 0; i < n; i++) { S s = "INSERT INTO N VALUES(" + std::to_string((1LL << (12 * i)) - i) + ",'r" + std::to_string(i) + "'," + (i % 2 ? "NULL" : "x'410042'") + ")"; MC_CHECK(!sqlite3_exec(db, s.c_str(), 0, 0, 0), "insert"); }
	{
		sqlQuery x(db, "N", "*", "ORDER BY I"); int i = 0; MC_CHECK(x.sqlSuccess() == (n > 0), "success");
		for (; i < stop; i++) { bool more = i < n; MC_CHECK(x.sqlSuccess() == more, "row %d of %d: %d", i, n, x.sqlSuccess()); if (more) { MC_CHECK(x.getResultInt(0) == (1LL << (12 * i)) - i && x.getResultText(1) == "r" + std::to_string(i), "row %d is %lld %s", i, (long long)x.getResultInt(0), x.getResultText(1).c_str()); S b = x.getResultText(2); MC_CHECK(b == (i % 2 ? S() : S("A\0B", 3)), "binary column of row %d has %d bytes", i, (int)b.size()); } MC_CHECK(x.sqlStep() == (i + 1 < n), "step %d of %d", i, n); }
	}
	idle(); MC_CHECK(sql("INSERT INTO N VALUES(-1,'late',NULL)"), "another connection cannot write after a query was left"); outcome(std::to_string(n));
}
MC_SCENARIO(C27, commands, SEQ, "commands that succeed, fail and are refused, with their result codes")
{
	static const struct { const char *q; bool ok; } Q[] = { { "CREATE TABLE T (A TEXT UNIQUE)", true }, { "CREATE TABLE IF NOT EXISTS T0 (A TEXT)", true }, { "INSERT INTO T0 VALUES('y')", true }, { "INSERT INTO T0 VALUES('x')", false }, { "SELECT * FROM T0", true }, { "UPDATE T0 SET A='z' WHERE A='x'", true }, { "DELETE FROM T0 WHERE A='none'", true }, { "SELEC", false }, { "INSERT INTO NOTABLE VALUES(1)", false }, { "", false }, { "DELETE FROM T0", true } };
	fresh(); sqlite3 *db = odb(); MC_CHECK(!sqlite3_exec(db, "CREATE TABLE T0 (A TEXT UNIQUE); INSERT INTO T0 VALUES('x'); INSERT INTO T0 VALUES('w')", 0, 0, 0), "create"); auto &c = Q[choose(11, "command")]; if (!*c.q) skip(); int busy = choose(8, "refusals"); 
	vfs::arm(vfs::BUSY, 0, busy); int rc = 99; bool asked = choose(2, "with code"), g = asked ? sqlite_command(db, c.q, &rc) : sqlite3_command(db, c.q); int hit = vfs::fault().hit; vfs::disarm(); idle();
	if (c.ok && busy <= 4) MC_CHECK(g, "[%s] fails after %d refusals", c.q, busy); if (!c.ok) MC_CHECK(!g, "[%s] succeeds", c.q); if (asked) MC_CHECK(rc != 99, "[%s] reports no code", c.q); if (rc != 99) MC_CHECK((rc == SQLITE_OK || rc == SQLITE_DONE || rc == SQLITE_ROW) == g, "[%s] returns %d with code %d", c.q, g, rc); if (hit >= 10) MC_CHECK(!g, "[%s] succeeds while the database is locked", c.q);
	vfs::arm(vfs::BUSY, 0, 1000000); int64_t t0 = nowUs(); g = sqlite_command(db, "INSERT INTO T0 VALUES('q')", &rc); vfs::disarm(); MC_CHECK(!g && rc != SQLITE_DONE && rc != SQLITE_OK && rc != SQLITE_ROW, "an insert into a locked database returns %d with code %d", g, rc); MC_CHECK(nowUs() - t0 < 1000000, "a refused command took %lld us", (long long)(nowUs() - t0)); idle();
	MC_CHECK(sql("INSERT INTO T0 VALUES('r')"), "the database stays locked"); MC_CHECK(sqlite3_command(db, "INSERT INTO T0 VALUES('q')"), "the connection no longer works"); outcome(c.q);
}

MC_SCENARIO(C27, garbage, SEQ, "queries that succeed, find nothing and fail, built where other data was before")
{
	static const char *const T[] = { "N", "NOTABLE" }, *const C[] = { "I", "NOCOL", "*" }, *const W[] = { "", "WHERE I=7", "WHERE", "ORDER BY I" };
	fresh(); sqlite3 *db = odb(); MC_CHECK(!sqlite3_exec(db, "CREATE TABLE N (I INTEGER); INSERT INTO N VALUES(3)", 0, 0, 0), "create"); int t = choose(2, "table"), c = choose(3, "columns"), w = choose(4, "condition"), form = choose(3, "form"), fill = choose(3, "garbage"); bool good = !t && c != 1 && (form || w != 2), found = good && (form ? 0 : w != 1);
	alignas(16) static char mem[sizeof(sqlQuery)]; { int v = fill == 0 ? SQLITE_ROW : fill == 1 ? 0 : -1; for (size_t i = 0; i + 4 <= sizeof mem; i += 4) memcpy(mem + i, &v, 4); }
	sqlQuery *x = form == 0 ? new (mem) sqlQuery(db, T[t], C[c], W[w]) : form == 1 ? new (mem) sqlQuery(db, T[t], C[c], "I", "7") : new (mem) sqlQuery(db, T[t], C[c], "I", 7u);
	MC_CHECK(x->sqlSuccess() == found && x->sqlResultSize() == (found ? 1 : 0) && x->getResultInt() == (found ? 3 : 0) && x->getResultText() == (found ? "3" : ""), "query of %s from %s %s: success %d", C[c], T[t], W[w], x->sqlSuccess());
	MC_CHECK(!x->sqlStep() && !x->sqlSuccess() && x->sqlResultSize() == 0 && x->getResultText() == "", "query of %s from %s %s: a second row", C[c], T[t], W[w]); x->~sqlQuery(); noStatementsC27(db); outcome(std::to_string(good) + std::to_string(found));
}
// Another connection to the same shared cache holds a lock and gives it up during the n-th wait.
MC_SCENARIO(C27, shared, SEQ, "every helper while another connection of the process holds the schema, the table or nothing, for 0 to 6 waits")
{
	sqlite3 *a, *b; auto open1 = [&](sqlite3 **d) { return sqlite3_open_v2("file:c27?mode=memory&cache=shared", d, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE | SQLITE_OPEN_URI, 0); }; MC_CHECK(!open1(&a) && !open1(&b), "open");
	MC_CHECK(!sqlite3_exec(a, "CREATE TABLE N (I INTEGER, T TEXT); INSERT INTO N VALUES(7,'seven'); CREATE TABLE ATTR_TABLE (ATTR_NAME TEXT PRIMARY KEY, ATTR_VALUE TEXT); INSERT INTO ATTR_TABLE VALUES('k','old')", 0, 0, 0), "create");
	int op = choose(11, "helper"), hold = choose(3, "held"), n = choose(7, "waits"); bool refused = hold && n >= 5; MC_CHECK(!sqlite3_exec(b, "SELECT * FROM N", 0, 0, 0), "read the schema");
	if (hold) MC_CHECK(!sqlite3_exec(a, hold == 1 ? "BEGIN; CREATE TABLE X (A)" : "BEGIN IMMEDIATE; UPDATE N SET T='seven'; UPDATE ATTR_TABLE SET ATTR_VALUE='old'", 0, 0, 0), "lock");
	int waits = 0; auto give = [&] { if (hold) sqlite3_exec(a, "ROLLBACK", 0, 0, 0); hold = 0; }; gOnSleep = [&] { if (++waits == n) give(); }; if (!n) give();
	int64_t t0 = nowUs(); char *c = 0; unsigned u = 0; S s; bool g = false, right = true; int rc = 99;
	switch (op) {
	case 0: g = sqlite3_exists(b, "N", "T", "seven"); break;
	case 1: g = sqlite3_single_lookup(b, "N", "T", "seven", "I", u); right = u == 7; break;
	case 2: g = sqlite3_single_lookup(b, "N", "T", "seven", "T", c); right = c && !strcmp(c, "seven"); free(c); break;
	case 3: g = sqlite3_single_lookup(b, "N", "I", 7u, "T", c); right = c && !strcmp(c, "seven"); free(c); break;
	case 4: g = sqlite_single_lookup(b, "N", "T", "seven", "I", s); right = s == "7"; break;
	case 5: g = sqlite_single_lookup(b, "N", "I", 7u, "T", s); right = s == "seven"; break;
	case 6: { sqlQuery x(b, "N", "I", "WHERE T='seven'"); g = x.sqlSuccess(); s = x.getResultText(); right = s == "7"; break; }
	case 7: s = sqlite_get_attr(b, "k"); g = s != ""; right = s == "old"; break;
	case 8: g = sqlite_set_attr(b, "k", "new"); right = sqlite_get_attr(b, "k") == "new"; break;
	case 9: g = sqlite_command(b, "INSERT INTO N VALUES(8,'eight')", &rc); right = rc == SQLITE_DONE; break;
	case 10: { sqlQuery x(b, "N", "I,T", "I", 7u); g = x.sqlSuccess(); right = x.getResultInt() == 7 && x.getResultText(1) == "seven"; break; }
	}
	gOnSleep = nullptr; MC_CHECK(nowUs() - t0 < 1000000, "a refused helper took %lld us", (long long)(nowUs() - t0));
	if (refused && g && waits < n) ; else MC_CHECK(refused ? !g || waits >= n : g, "helper %d gives %d after %d waits, the lock was given up after %d", op, g, waits, n); MC_CHECK(!g || right, "helper %d gives a wrong result after %d waits", op, waits);
	give(); S left; sqlite3_exec(a, "SELECT group_concat(I||T) FROM N", [](void *p, int, char **v, char **) { *(S *)p = v[0] ? v[0] : ""; return 0; }, &left, 0); MC_CHECK(left == (op == 9 && g ? "7seven,8eight" : "7seven"), "the table holds %s", left.c_str());
	noStatementsC27(b); MC_CHECK(!sqlite3_close(b) && !sqlite3_close(a), "a connection is still in use"); outcome(std::to_string(op) + std::to_string(g) + std::to_string(waits));
}

// ================================================================ C45: nothing is held back
#include "balance.h"
// No prepared statement may be left behind either, run or not.
static void noStatements(const char *what) { for (sqlite3 *p : vfs::conns()) if (sqlite3_stmt *s = sqlite3_next_stmt(p, 0)) fail("%s: a query is not given back: %s", what, sqlite3_sql(s)); }
struct Act { const char *what; std::function<void(ConfigurationTable &)> f; };
template<class F> static void quiet(F f) { try { f(); } catch (ConfigurationTableKeyNotFound &) {} }
static std::vector<S> noCheck(const S &k) { return { "warning about " + k }; }
static std::vector<Act> acts()
{
	std::vector<Act> r; auto add = [&](const char *w, std::function<void(ConfigurationTable &)> f) { r.push_back({ w, f }); };
	for (const char *k : { "a", "num", "list", "none", "", "o'dd", "nul" }) {
		S K = k;
		add("getStr", [K](ConfigurationTable &t) { t.purge(); quiet([&] { t.getStr(K); t.getStr(K); }); quiet([&] { t.getStr(K); }); });
		add("getNum", [K](ConfigurationTable &t) { t.purge(); quiet([&] { t.getNum(K); }); });
		add("getBool", [K](ConfigurationTable &t) { t.purge(); quiet([&] { t.getBool(K); }); });
		add("getFloat", [K](ConfigurationTable &t) { t.purge(); quiet([&] { t.getFloat(K); }); });
		add("getVector", [K](ConfigurationTable &t) { t.purge(); quiet([&] { t.getVector(K); }); quiet([&] { t.getVectorLength(K); }); });
		add("getVectorOfStrings", [K](ConfigurationTable &t) { t.purge(); quiet([&] { t.getVectorOfStrings(K); }); });
		add("defines", [K](ConfigurationTable &t) { t.purge(); t.defines(K); t.keyDefinedInSchema(K); t.isStatic(K); });
		add("set text", [K](ConfigurationTable &t) { t.set(K, "text"); t.set(K, 5L); });
		add("remove", [K](ConfigurationTable &t) { t.remove(K); });
		add("set and remove", [K](ConfigurationTable &t) { t.set(K, "x"); t.remove(K); });
		add("find", [K](ConfigurationTable &t) { std::ostringstream o; t.find(K, o); });
		add("getSimilarKeys", [K](ConfigurationTable &t) { t.getSimilarKeys(K); });
		add("crossCheck", [K](ConfigurationTable &t) { t.setCrossCheckHook(noCheck); t.crossCheck(K); });
		add("stale cache", [K](ConfigurationTable &t) { quiet([&] { t.getStr(K); }); advance(10000000); t.checkCacheAge(); quiet([&] { t.getStr(K); }); });
	}
	for (const char *k : { "num", "dec", "ip", "mip", "mail", "re", "str", "cidr", "host", "file", "choice", "port", "bool", "addr", "none" }) for (const char *v : { "", "1", "1.5", "a", "1.2.3.4", "1.2.3.4:5", "1.2.3.4 5.6.7.8:9", "1.2.3.4/24", "a@b.c", "host.name", "[", "(x", "0x10", "two words", "-", "50" })
		add("isValidValue", [k, v](ConfigurationTable &t) { t.isValidValue(k, S(v)); t.isValidValue(k, 7); });
	add("getAllPairs", [](ConfigurationTable &t) { t.getAllPairs(); });
	add("getDefaultSQL", [](ConfigurationTable &t) { t.getDefaultSQL("p", "1"); });
	add("getTeX", [](ConfigurationTable &t) { t.getTeX("p", "1"); });
	add("printKey", [](ConfigurationTable &t) { std::ostringstream o; for (auto &p : t.mSchema) { CK::printKey(p.second, "x", o); CK::printDescription(p.second, o); S a, b, c; if (p.second.getType() == CK::VALRANGE) CK::getMinMaxStepping(p.second, a, b, c); } });
	add("hooks", [](ConfigurationTable &t) { t.setUpdateHook([](void *, int, char const *, char const *, sqlite3_int64) {}); t.set("a", "z"); t.setUpdateHook(0); });
	return r;
}
static ConfigurationKeyMap leakSchema()
{
	return schema({ key("num", "42", CK::VALRANGE, "0:100"), key("list", "1 2 3", CK::STRING), key("dec", "1.5", CK::VALRANGE, "0.0:2.0(0.5)"), key("ip", "1.2.3.4", CK::IPADDRESS), key("mip", "", CK::MIPADDRESS_OPT), key("mail", "a@b.c", CK::MIPADDRESS),
		key("re", "^a", CK::REGEX), key("str", "abc", CK::STRING, "^[a-z]+$"), key("cidr", "1.2.3.4/8", CK::CIDR), key("host", "h", CK::HOSTANDPORT), key("file", "/x", CK::FILEPATH), key("choice", "1", CK::CHOICE, "1|one,2|two,a"), key("port", "80", CK::PORT), key("bool", "1", CK::BOOLEAN), key("addr", "1.2.3.4:5", CK::IPANDPORT) });
}
MC_SCENARIO(C45, table_calls, SEQ, "every call of the configuration table on present, default, missing, empty, odd and NULL keys, repeated")
{
	static const std::vector<Act> A = acts(); const Act &a = A[choose(A.size(), "call")]; fresh(); ConfigurationTable t(DB.c_str(), "test", leakSchema()); MC_CHECK(t.set("a", "old") && t.set("list", "7 8"), "set"); MC_CHECK(sql("INSERT INTO CONFIG (KEYSTRING,VALUESTRING) VALUES('nul',NULL)"), "insert");
	balance::repeat(a.what, [&] { a.f(t); noStatements(a.what); }); outcome(a.what);
}
static void leakFault(int kind, int at, int count)
{
	static const std::vector<OpSpec> O = dbOps(); const OpSpec &o = O[choose(O.size() - 1, "operation")]; fresh(); ConfigurationTable t(DB.c_str(), "test", schema({ key("num", "42", CK::VALRANGE, "0:100") })); MC_CHECK(t.set("a", "old") && t.set("keep", "k") && t.set("num", "5"), "set");
	int hit = 0; balance::repeat(o.what, [&] { vfs::arm((vfs::Kind)kind, at, count); o.f(t); hit += vfs::fault().hit; vfs::disarm(); noStatements(o.what); }, 5); outcome(S(o.what) + (hit ? " hit" : ""));
}
static int many(const char *w) { return choose(2, w) ? 1000000 : 1; }
MC_SCENARIO(C45, table_busy, SEQ, "each operation with every lock request refused, from once to forever, repeated", o.maxSteps = 100000) { static const int C[] = { 1, 3, 1000000 }; int a = choose(12, "lock request"), c = C[choose(3, "refusals")]; leakFault(vfs::BUSY, a, c); }
MC_SCENARIO(C45, table_io_error, SEQ, "each operation with every file access failing, once or from then on, repeated") { int a = choose(thorough() ? 60 : 30, "access"), c = many("lasting"); leakFault(vfs::IOERR, a, c); }
MC_SCENARIO(C45, table_full, SEQ, "each operation with every write refused for lack of space, repeated") { int a = choose(15, "write"), c = many("lasting"); leakFault(vfs::FULL, a, c); }
MC_SCENARIO(C45, table_memory, SEQ, "each operation with every memory allocation of the database failing, repeated") { int a = choose(thorough() ? 120 : 40, "allocation"), c = many("lasting"); leakFault(vfs::NOMEM, a, c); }
struct DAct { const char *what; std::function<void(sqlite3 *)> f; };
static std::vector<DAct> dacts()
{
	std::vector<DAct> r; auto add = [&](const char *w, std::function<void(sqlite3 *)> f) { r.push_back({ w, f }); };
	for (const char *tb : { "TT", "NOTABLE" }) for (const char *k : { "k1", "absent", "it's", "nul" }) for (const char *col : { "V", "NOCOL" }) {
		add("lookup of a number", [=](sqlite3 *d) { unsigned u; sqlite3_single_lookup(d, tb, "K", k, col, u); });
		add("lookup of a C string", [=](sqlite3 *d) { char *c = 0; sqlite3_single_lookup(d, tb, "K", k, col, c); free(c); });
		add("lookup of a C string by number", [=](sqlite3 *d) { for (unsigned u : { 1u, 2u, 9u }) { char *c = 0; sqlite3_single_lookup(d, tb, "U", u, col, c); free(c); } });
		add("lookup of a string", [=](sqlite3 *d) { S s; sqlite_single_lookup(d, tb, "K", k, col, s); sqlite_single_lookup(d, tb, "U", 1u, col, s); });
		add("exists", [=](sqlite3 *d) { sqlite3_exists(d, tb, "K", k); });
		for (int steps : { 0, 1, 2, 9 }) {
			add("query", [=](sqlite3 *d) { sqlQuery q(d, tb, col, "ORDER BY U"); for (int i = 0; i < steps; i++) { q.getResultText(); q.getResultInt(); q.sqlStep(); } });
			add("query by text", [=](sqlite3 *d) { sqlQuery q(d, tb, col, "K", k); for (int i = 0; i < steps; i++) { q.getResultText(); q.sqlStep(); } });
			add("query by number", [=](sqlite3 *d) { sqlQuery q(d, tb, col, "U", 1u); for (int i = 0; i < steps; i++) { q.getResultText(5); q.sqlStep(); } });
		}
	}
	for (const char *a : { "x", "it's", "" }) add("attributes", [=](sqlite3 *d) { sqlite_set_attr(d, a, "v"); S s = sqlite_get_attr(d, a); });
	for (const char *c : { "UPDATE TT SET V='z' WHERE K='k1'", "INSERT INTO TT VALUES('k1',1,'dup')", "SELECT * FROM TT", "SELEC", "DELETE FROM NOTABLE", "PRAGMA user_version", "INSERT INTO TT VALUES('n',5,'n')", "" }) add("command", [=](sqlite3 *d) { int rc; sqlite_command(d, c, &rc); sqlite3_command(d, c); sqlite3_command(d, "DELETE FROM TT WHERE K='n'"); });
	add("prepare and finalize", [](sqlite3 *d) { sqlite3_stmt *s = 0; if (!sqlite3_prepare_statement(d, &s, "SELECT * FROM TT")) { sqlite3_run_query(d, s); sqlite3_finalize(s); } s = 0; if (!sqlite3_prepare_statement(d, &s, "nonsense")) sqlite3_finalize(s); });
	add("quote", [](sqlite3 *) { sqlite3_quote("it's"); sqlite3_quote(""); });
	return r;
}
static void leakSql(int kind, int at, int count)
{
	static const std::vector<DAct> A = dacts(); const DAct &a = A[choose(A.size(), "call")]; fresh(); sqlite3 *d = odb(); MC_CHECK(!sqlite3_exec(d, "CREATE TABLE TT (K TEXT UNIQUE, U INTEGER, V TEXT); INSERT INTO TT VALUES('k1',1,'v1'); INSERT INTO TT VALUES('nul',2,NULL)", 0, 0, 0), "create");
	int hit = 0; balance::repeat(a.what, [&] { if (kind) vfs::arm((vfs::Kind)kind, at, count); a.f(d); hit += vfs::fault().hit; vfs::disarm(); noStatements(a.what); }, 5); outcome(S(a.what) + (hit ? " hit" : ""));
}
MC_SCENARIO(C45, sqlite_calls, SEQ, "every database helper on present, missing and NULL rows, missing tables and columns, repeated") { leakSql(0, 0, 0); }
MC_SCENARIO(C45, sqlite_busy, SEQ, "the same with every lock request refused, repeated", o.maxSteps = 100000) { static const int C[] = { 1, 3, 1000000 }; int a = choose(5, "lock request"), c = C[choose(3, "refusals")]; leakSql(vfs::BUSY, a, c); }
MC_SCENARIO(C45, sqlite_memory, SEQ, "the same with every memory allocation of the database failing, repeated") { int a = choose(thorough() ? 40 : 20, "allocation"), c = many("lasting"); leakSql(vfs::NOMEM, a, c); }
MC_SCENARIO(C45, key_values, SEQ, "lists of key=value items with every form of item, repeated")
{
	static const char *const I[] = { "a=1", "noequals", "a=1 b=2", "a b c", "", "=", " a=1 ", "x=y=z", "a=1 a=2 bad" }; const char *s = I[choose(9, "text")]; bool ln = choose(2, "line"); balance::repeat("adding items", [&] { SimpleKeyValue kv; if (ln) kv.addItems(s); else kv.addItem(s); kv.get("a"); bool ok; kv.getNum("a", ok); }); outcome(s);
}
