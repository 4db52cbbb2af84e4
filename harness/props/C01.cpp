#include "../common.hpp"
using namespace md;

static void check(mc::Ctx &m, gen::Case &c) {
	if (!c.ref.ok() || c.ref.unspecified) { m.count("not conforming (left to C02)"); m.prune(); }
	env::Cfg cfg(c.cfg);
	uint64_t h0 = c.a.hash();
	env::LoadRes r = env::load(m, cfg, c.s, c.text);
	if (r.err != CYAML_OK) m.fail("conforming document rejected: %s", env::ename(r.err));
	check_loaded(m, cfg.heap, *c.top, c.ref.v, r.data, r.count, "load", 0);
	if (m.tracing()) m.note("value: %s\n", describe(c.ref.v).c_str());
	m.outcome(c.text); m.outcome(h0);
	if (r.data) env::release(m, cfg, c.s, r.data, r.count);
	if (c.a.hash() != h0) m.fail("the schema was modified");
}
static void body(mc::Ctx &m, const gen::Opt &o) {
	gen::Case c;
	gen::make(m, c, o);
	check(m, c);
}
static void ladder(mc::Ctx &m, const std::function<void(gen::Case &)> &f) {
	m.commit();
	gen::Case c;
	f(c);
	c.style = m.choose(gen::STYLES);
	gen::finish(m, c);
	if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str());
	check(m, c);
}
static void build(std::vector<mc::Family> &f, bool) {
	{ gen::Opt o; o.nodes = 2; o.leaf_free = true;
	  f.push_back({"one leaf, all forms", "schema trees of up to 2 nodes: every leaf profile x indirection x text; other choices within the bound", [o](mc::Ctx &m) { body(m, o); }, 1, 2}); }
	{ gen::Opt o; o.nodes = 4;
	  f.push_back({"shapes", "every schema tree of up to 4 nodes; leaf profile, text, indirection, presence, default, layout, count member, key names, key order, presentation, configuration within the bound", [o](mc::Ctx &m) { body(m, o); }, 2, 3}); }
	{ gen::Opt o; o.nodes = 6; o.min_nodes = 5;
	  f.push_back({"larger shapes", "every schema tree of 5 and 6 nodes, choices within the bound", [o](mc::Ctx &m) { body(m, o); }, 1, 2}); }
	f.push_back({"fields ladder", "mappings of 0..70 fields x 6 field kinds x 4 key orders x presentation", [](mc::Ctx &m) {
		int n = m.pick(71), k = m.pick(gen::FIELD_KINDS), o = m.pick(gen::FIELD_ORDERS);
		ladder(m, [=](gen::Case &c) { gen::ladder_fields(c, n, k, o); }); }, 1, 1});
	f.push_back({"depth ladder", "1..40 nested collections x 6 kinds x presentation", [](mc::Ctx &m) {
		int n = 1 + m.pick(40), k = m.pick(gen::DEPTH_KINDS);
		ladder(m, [=](gen::Case &c) { gen::ladder_depth(c, n, k); }); }, 1, 1});
	f.push_back({"sequence ladder", "sequences of 0..40 (all) and up to 300 entries x 9 entry kinds x 6 storage forms", [](mc::Ctx &m) {
		int n = m.pick(m.thorough ? 301 : 52), k = m.pick(gen::SEQ_KINDS), o = m.pick(gen::SEQ_FORMS);
		static const int big[] = {63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300};
		if (!m.thorough && n > 40) n = big[n - 41];
		if (o == 3 && n == 0) m.prune();
		if (o == 2 && n > 255) m.prune();
		ladder(m, [=](gen::Case &c) { gen::ladder_seq(c, n, k, o); }); }, 0, 1});
	f.push_back({"string ladder", "string lengths 0..70, around powers of two and around 16384 and 65536, x 5 forms", [](mc::Ctx &m) {
		static const int big[] = {127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 16382, 16383, 16384, 16385, 32768, 65534, 65535, 65536, 65537, 70000};
		int n = m.pick(71 + 20), o = m.pick(gen::STRING_FORMS);
		if (n > 70) n = big[n - 71];
		ladder(m, [=](gen::Case &c) { gen::ladder_string(c, (size_t)n, o); }); }, 0, 1});
	f.push_back({"scale", com::SCALE, [](mc::Ctx &m) { gen::Case c; com::scale(m, c); if (m.tracing()) m.note("%s", c.show().substr(0, 3000).c_str()); if (!c.ref.ok()) m.fail("harness: must conform: %s", com::errset(c.ref.errs).c_str()); check(m, c); }, 0, 0});
}
const mc::Prop mc::PROP = {"C01", "A case is a schema, a document over it, its presentation and a configuration; non-trivial when the document conforms by the reference model, so that the loaded memory is compared byte for byte.", build};
