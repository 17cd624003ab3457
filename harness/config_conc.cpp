// Drivers for the configuration table shared by threads: C22.
#include "common.h"
#include "quiet.inc"
#include <map>
#include <sstream>
#include <string.h>
#include <unistd.h>
ConfigurationTable gConfig;
using namespace mc;
typedef std::string S;
typedef ConfigurationKey CK;
static ConfigurationKeyMap schema() { ConfigurationKeyMap m; m["num"] = CK("num", "42", "", CK::CUSTOMER, CK::VALRANGE, "0:100", true, "d"); m["opt"] = CK("opt", "", "", CK::CUSTOMER, CK::STRING_OPT, ".*", false, "d"); return m; }
static const char *const K[] = { "num", "plain" };
struct Tab { std::map<int, S> v; };	// key number -> value
enum { SET, GET, REMOVE, DEFINES, PURGE, NUM, PAIRS, FIND, NK };
static const char *const NAMES[] = { "set", "get", "remove", "defines", "purge", "getNum", "getAllPairs", "find" };
static bool applyOp(Tab &t, const Op &o)
{
	int k = o.a; auto i = t.v.find(k); bool has = i != t.v.end() || k == 0; S val = i != t.v.end() ? i->second : "42";
	switch (o.kind) {
	case SET: if (o.ret >= 0 && !o.res) return false; t.v[k] = std::to_string(o.b); return true;
	case GET: return o.ret < 0 || o.sres == (has ? val : "!");
	case NUM: return o.ret < 0 || o.res == (has ? atol(val.c_str()) : -99);
	case REMOVE: { bool h = t.v.erase(k); return o.ret < 0 || o.res == h; }
	case DEFINES: return o.ret < 0 || o.res == has;
	case PAIRS: case FIND: { S s; for (int j = 0; j < 2; j++) if (t.v.count(j)) s += S(K[j]) + "=" + t.v[j] + ";"; return o.ret < 0 || o.sres == s; }
	default: return true;
	}
}
static S get(ConfigurationTable &t, const char *k) { try { return t.getStr(k); } catch (ConfigurationTableKeyNotFound &) { return "!"; } }
static S pairs(ConfigurationTable &t) { ConfigurationRecordMap m = t.getAllPairs(); S s; for (int j = 0; j < 2; j++) if (m.count(K[j])) s += S(K[j]) + "=" + m[K[j]].value() + ";"; return s; }
static S found(ConfigurationTable &t) { std::ostringstream o; t.find("n", o); std::map<S, S> m; S l; std::istringstream is(o.str()); while (getline(is, l)) { size_t b = l.find(' '); m[l.substr(0, b)] = l.substr(b + 1); } S s; for (int j = 0; j < 2; j++) if (m.count(K[j])) s += S(K[j]) + "=" + m[K[j]] + ";"; return s; }
struct Hist { History h; std::vector<S> res; Hist() : res(32) {} };
static void doOp(ConfigurationTable &t, Hist &L, int kind, int k, int v)
{
	int id = L.h.call(kind, k, v); long r = 0; S s;
	switch (kind) {
	case SET: r = v & 1 ? t.set(K[k], (long)v) : t.set(K[k], std::to_string(v)); break;
	case GET: s = get(t, K[k]); break;
	case NUM: try { r = t.getNum(K[k]); } catch (ConfigurationTableKeyNotFound &) { r = -99; } break;
	case REMOVE: r = t.remove(K[k]); break;
	case DEFINES: r = t.defines(K[k]); break;
	case PURGE: t.purge(); break;
	case PAIRS: s = pairs(t); break;
	case FIND: s = found(t); break;
	}
	raceIgnore(1); L.res[id] = s; raceIgnore(-1); L.h.ret(id, r);
}
static void judge(Hist &L, const Tab &init, const char *what)
{
	std::vector<Op> ops = L.h.all(); for (unsigned i = 0; i < ops.size(); i++) ops[i].sres = L.res[i];
	S d; for (auto &o : ops) { char b[200]; snprintf(b, sizeof b, "[%d] %s(%s%s%s)=%s%ld (%d-%d); ", o.thread, NAMES[o.kind], o.kind == PURGE || o.kind >= PAIRS ? "" : K[o.a], o.kind == SET ? "," : "", o.kind == SET ? std::to_string(o.b).c_str() : "", o.sres.c_str(), o.res, o.call, o.ret); d += b; }
	MC_CHECK(linearizable(ops, init, applyOp), "%s: no order of these operations explains their results: %s", what, d.c_str());
	S oc; for (auto &o : ops) oc += NAMES[o.kind][0] + o.sres + std::to_string(o.res) + " "; outcome(oc);
}
// Threads run the listed operations (kind, key); a final read of everything follows.
typedef std::vector<std::pair<int, int>> Prog;
static void run(const std::vector<Prog> &ps, bool warm, bool hook);
static ConfigurationTable *hooked;
static void purgeHook(void *, int, const char *, const char *, sqlite3_int64) { hooked->purge(); }
static void run(const std::vector<Prog> &ps, bool warm, bool hook)
{
	ConfigurationTable t(":memory:", 0, schema()); Tab init; Hist L; hooked = &t; if (hook) t.setUpdateHook(purgeHook);
	if (choose(2, "row present")) { t.set("num", "7"); init.v[0] = "7"; } if (warm) { get(t, "num"); get(t, "plain"); } else t.purge();
	int v = 10; for (auto &p : ps) { int base = v; v += 10; Prog q = p; spawn([&t, &L, q, base] { int n = base; for (auto &o : q) doOp(t, L, o.first, o.second, n++); }); }
	joinAll(); for (int k = 0; k < 2; k++) doOp(t, L, GET, k, 0); doOp(t, L, PAIRS, 0, 0); t.purge(); for (int k = 0; k < 2; k++) doOp(t, L, GET, k, 0); judge(L, init, "shared table"); t.purge();
}
static int kindOf(int i) { static const int k[] = { SET, GET, REMOVE, PURGE, NUM, DEFINES }; return k[i]; }
MC_SCENARIO(C22, pairs, CONC, "two threads, every pair of two-operation programs on one key", o.quick = 2, o.thorough = 3, o.races = true, o.timeAdvance = false) { Prog a, b; for (int i = 0; i < 2; i++) { a.push_back({ i && !thorough() ? GET : kindOf(choose(4, "op")), 0 }); b.push_back({ kindOf(choose(4, "op")), 0 }); } run({ a, b }, choose(2, "cached"), false); }
MC_SCENARIO(C22, missing_key, CONC, "two threads on a key without a default", o.quick = 2, o.thorough = 99, o.timeAdvance = false) { Prog a, b; a.push_back({ kindOf(choose(5, "op")), 1 }); a.push_back({ GET, 1 }); b.push_back({ kindOf(choose(6, "op")), 1 }); run({ a, b }, choose(2, "cached"), false); }
MC_SCENARIO(C22, three, CONC, "three threads, one operation each, all combinations and both keys", o.quick = 1, o.thorough = 2, o.timeAdvance = false) { std::vector<Prog> p; for (int i = 0; i < 3; i++) p.push_back({ { kindOf(choose(thorough() ? 5 : 3, "op")), i == 2 ? 1 : 0 } }); run(p, choose(2, "cached"), false); }
MC_SCENARIO(C22, listing, CONC, "listing and searching while other threads set and remove", o.quick = 2, o.thorough = 3, o.timeAdvance = false) { Prog a{ { choose(2, "list") ? PAIRS : FIND, 0 }, { PAIRS, 0 } }, b{ { SET, 0 }, { choose(2, "then") ? SET : REMOVE, (int)choose(2, "key") } }; run({ a, b }, choose(2, "cached"), false); }
MC_SCENARIO(C22, hook, CONC, "an update hook that purges the cache, with readers and writers", o.quick = 2, o.thorough = 3, o.timeAdvance = false) { Prog a{ { SET, 0 }, { GET, 0 } }, b{ { kindOf(choose(5, "op")), 0 }, { kindOf(choose(3, "op")), 0 } }; run({ a, b }, choose(2, "cached"), true); }
MC_SCENARIO(C22, expiry, CONC, "readers of every kind while the cache grows old and another thread writes", o.quick = 2, o.thorough = 3)
{
	ConfigurationTable t(":memory:", 0, schema()); Hist L; Tab init; t.set("num", "7"); init.v[0] = "7"; int w = choose(3, "writer");
	spawn([&] { for (int i = 0; i < 2; i++) { std::vector<unsigned> v = t.getVector("num"); MC_CHECK(v.size() == 1 && (v[0] == 7 || v[0] == 11 || v[0] == 42), "vector %d", (int)v.size()); std::vector<S> s = t.getVectorOfStrings("num"); MC_CHECK(s.size() == 1, "strings"); float f = t.getFloat("num"); MC_CHECK(f == 7 || f == 11 || f == 42, "float %g", f); } });
	spawn([&] { usleep(3000000); if (w == 0) t.set("num", 11L); else if (w == 1) t.remove("num"); else t.purge(); bool b = t.getBool("num"); MC_CHECK(b, "boolean"); });
	spawn([&] { usleep(3000000); doOp(t, L, GET, 0, 0); }); joinAll(); for (auto &s : { get(t, "num") }) MC_CHECK(s == (w == 0 ? "11" : w == 1 ? "42" : "7"), "at the end num is %s", s.c_str()); outcome(L.res[0]);
}
MC_SCENARIO(C22, two_tables, CONC, "two tables used by two threads at the same time", o.quick = 2, o.thorough = 3)
{
	ConfigurationTable t(":memory:", 0, schema()), u(":memory:", 0, schema()); int k = choose(2, "operation"); ConfigurationTable *tt[] = { &t, &u };
	for (int i = 0; i < 2; i++) spawn([&, i] { MC_CHECK(get(*tt[i], "num") == "42", "read"); if (k) { MC_CHECK(tt[i]->set("num", 5L + i), "set"); } else { usleep(3000000); tt[i]->remove("num"); } long n = tt[i]->getNum("num"); MC_CHECK(n == (k ? 5 + i : 42), "table %d reads %ld", i, n); });
	joinAll(); outcome("ok");
}
MC_SCENARIO(C22, schema, CONC, "validation and schema queries from two threads, for known and unknown keys, next to reads and writes", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{
	ConfigurationTable t(":memory:", 0, schema()); static const char *const N[] = { "num", "nosuch", "opt", "other" };
	auto one = [&](int o, const char *k) {
		switch (o) {
		case 0: MC_CHECK(t.isValidValue(k, "5") == (k[0] == 'n' && k[1] == 'u' || k[0] == 'o' && k[1] == 'p'), "validation of %s", k); break;
		case 1: MC_CHECK(t.keyDefinedInSchema(k) == (!strcmp(k, "num") || !strcmp(k, "opt")), "schema has %s", k); break;
		case 2: MC_CHECK(t.isStatic(k) == !strcmp(k, "num"), "static %s", k); break;
		case 3: MC_CHECK(t.getSimilarKeys("nu").size() == 1 && t.getSimilarKeys("nosuch").empty(), "similar keys"); break;
		case 4: MC_CHECK(t.set(k, "9"), "set"); break;
		case 5: { S s = get(t, k); MC_CHECK(s == "9" || s == "42" || s == "" || s == "!", "read %s", s.c_str()); break; }
		case 6: MC_CHECK(t.getDefaultSQL("p", "v").find("nosuch") == S::npos, "sql"); break;
		}
	};
	for (int i = 0; i < 2; i++) { int a = choose(7, "operation"), b = choose(2, "key"); const char *k = N[b * 1 + (i && b ? 2 : 0)]; spawn([=] { one(a, k); one(0, k); }); }
	joinAll(); MC_CHECK(t.mSchema.size() == 6, "the schema has %d keys", (int)t.mSchema.size()); outcome("ok");
}
MC_SCENARIO(C22, typed_reads, CONC, "every kind of read next to every kind of change or another first read, one operation each", o.quick = 3, o.thorough = 99, o.timeAdvance = false)
{
	ConfigurationTable t(":memory:", 0, schema()); t.set("num", "7"); int r = choose(9, "read"), w = choose(6, "other"), warm = choose(3, "cached"); const char *key = choose(2, "key") ? "plain" : "num"; bool plain = key[0] == 'p'; if (plain) t.set("plain", "7"); t.purge(); if (warm) get(t, key);
	if (warm == 2) { noSched(1); sleep(4); noSched(-1); }	// the cache is due for a purge
	auto ok = [&](long v) { return v == 7 || (w == 0 && v == 11) || (w == 1 && v == 42 && !plain); };
	spawn([&, r] {
		try { switch (r) {
		case 0: { S s = t.getStr(key); MC_CHECK(ok(atol(s.c_str())), "getStr gives %s", s.c_str()); break; }
		case 1: { long n = t.getNum(key); MC_CHECK(ok(n), "getNum gives %ld", n); break; }
		case 2: MC_CHECK(t.getBool(key), "getBool"); break;
		case 3: { float f = t.getFloat(key); MC_CHECK(ok((long)f), "getFloat gives %f", f); break; }
		case 4: { std::vector<unsigned> v = t.getVector(key); MC_CHECK(v.size() == 1 && ok(v[0]), "getVector gives %d elements", (int)v.size()); break; }
		case 5: { std::vector<S> v = t.getVectorOfStrings(key); MC_CHECK(v.size() == 1 && ok(atol(v[0].c_str())), "getVectorOfStrings gives %d elements", (int)v.size()); break; }
		case 6: MC_CHECK(t.defines(key) || (plain && w == 1), "defines"); break;
		case 7: { ConfigurationRecordMap m = t.getAllPairs(); MC_CHECK(m.count(key) ? ok(atol(m[key].value().c_str())) : w == 1, "getAllPairs"); break; }
		case 8: { std::ostringstream o; t.find(key, o); S s = o.str(); MC_CHECK(s.empty() ? w == 1 : s.size() > strlen(key) + 1 && ok(atol(s.c_str() + strlen(key) + 1)), "find gives %s", s.c_str()); break; }
		} } catch (ConfigurationTableKeyNotFound &) { MC_CHECK(plain && w == 1, "%s is not found", key); }
	});
	spawn([&, w] { switch (w) { case 0: t.set(key, "11"); break; case 1: t.remove(key); break; case 2: t.purge(); break; case 3: get(t, "num"); break; case 4: t.set("opt", "x"); break; case 5: get(t, "nosuch"); break; } });
	joinAll(); S e = get(t, key); MC_CHECK(e == (w == 0 ? "11" : w == 1 ? plain ? "!" : "42" : "7"), "at the end %s is %s", key, e.c_str()); outcome(std::to_string(r) + std::to_string(w));
}
