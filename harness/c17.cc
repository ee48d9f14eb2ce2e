// C17: SamplingStatus against a model of its contract, over random call histories
#include "fk.hh"
#include <frackit/common/id.hh>
#include <frackit/sampling/status.hh>
using namespace vf;

namespace {
struct Model
{
    std::map<std::size_t,std::size_t> count, target;
    std::size_t rejected = 0;
    std::size_t rejected2 = 0;       // the documentation leaves open if resetCounters() resets it as well
    std::size_t get(std::size_t id) const { auto it = count.find(id); return it == count.end() ? 0 : it->second; }
    std::size_t total() const { std::size_t s = 0; for (auto& p : count) s += p.second; return s; }
    std::size_t targetSum() const { std::size_t s = 0; for (auto& p : target) s += p.second; return s; }
    bool finished() const { for (auto& p : target) if (get(p.first) < p.second) return false; return true; }
};

// last non-empty line split into the four cells
std::vector<std::string> cells(const std::string& t)
{
    std::istringstream in(t); std::string l, last; while (std::getline(in, l)) if (l.find_first_not_of(" \t\r") != std::string::npos) last = l;
    std::vector<std::string> r; std::string cur;
    for (char ch : last) { if (ch == '|') { r.push_back(cur); cur.clear(); } else if (ch != ' ' && ch != '#') cur += ch; }
    r.push_back(cur); return r;
}
}

int main(int argc, char** argv)
{
    parse(argc, argv);
    auto body = [](Rng& r, Case& c, int nOps, bool huge) {
        F::SamplingStatus s; Model m;
        const int nIds = r.i(1, 6); std::vector<std::size_t> ids;
        while (int(ids.size()) < nIds) { std::size_t id = r.b(0.8) ? r.i(12) : std::size_t(r.next() >> r.i(64)); if (!std::count(ids.begin(), ids.end(), id)) ids.push_back(id); }
        std::string hist; int ops[12] = {0}, printed = 0, warned = 0;
        auto check = [&](const char* op) {
            const Model& k = m; (void)k;
            // queries in random order; they must not influence each other
            for (int q = 0; q < 3; ++q)
            {
                const auto id = ids[r.i(nIds)];
                switch (r.i(4))
                {
                    case 0: { const auto n = s.getCount(F::Id(id)); if (n != m.get(id)) c.fail("count", str(op, ": getCount(", id, ") = ", n, ", expected ", m.get(id), " after", hist)); break; }
                    case 1: { const auto n = s.getCount(); if (n != m.total()) c.fail("total", str(op, ": getCount() = ", n, ", expected ", m.total(), " after", hist)); break; }
                    case 2: { const bool f = s.finished(); if (f != m.finished()) c.fail("finished", str(op, ": finished() = ", f, ", expected ", m.finished(), " after", hist)); break; }
                    case 3: if (m.target.count(id)) { const bool e = m.get(id) >= m.target[id], f = s.finished(F::Id(id)); if (f != e) c.fail("finished-id", str(op, ": finished(", id, ") = ", f, ", expected ", e, " after", hist)); } 
                        else { try { (void)s.finished(F::Id(id)); } catch (const std::runtime_error&) {} } break;
                }
            }
            c.count("queries", 3);
        };
        for (int k = 0; k < nOps && !c.failed; ++k)
        {
            const auto id = ids[r.i(nIds)]; const int op = r.i(12);
            CoutCapture cap;
            switch (op)
            {
                case 0: case 1: { const std::size_t t = r.b(0.1) ? 0 : huge && r.b(0.3) ? std::size_t(r.next() >> (r.i(32)+2)) : r.i(1, 8); hist += str(" target(", id, ",", t, ")"); s.setTargetCount(F::Id(id), t); m.target[id] = t; break; }
                case 2: case 3: case 4: case 5: { int n = huge && r.b(0.2) ? r.i(1, 3000) : 1; hist += str(" inc(", id, ")x", n); for (int j = 0; j < n; ++j) s.increaseCounter(F::Id(id)); m.count[id] += n; break; }
                case 6: case 7: { int n = huge && r.b(0.2) ? r.i(1, 3000) : 1; hist += str(" rej x", n); for (int j = 0; j < n; ++j) s.increaseRejectedCounter(); m.rejected += n; m.rejected2 += n; break; }
                case 8: if (r.b(0.3)) { hist += " resetCounters"; s.resetCounters(); for (auto& p : m.count) p.second = 0; m.rejected2 = 0; } break;
                case 9: if (r.b(0.5)) { hist += str(" resetCounter(", id, ")"); s.resetCounter(F::Id(id)); m.count[id] = 0; } break;
                case 10: if (r.b(0.15)) { hist += " reset"; s.reset(); m = Model(); } break;
                case 11:
                {
                    hist += " print"; std::cout << std::setprecision(9) << std::scientific;
                    const auto fl = std::cout.flags(); const auto pr = std::cout.precision();
                    s.print(r.b()); printed++;
                    (void)fl; (void)pr;
                    const auto l = cells(cap.text());
                    if (l.size() != 4) { c.fail("print-format", "status line does not have four cells: " + cap.text()); break; }
                    auto num = [&](const std::string& t, double want, const char* what, double tol) {
                        char* e = nullptr; const double v = std::strtod(t.c_str(), &e);
                        if (e == t.c_str() || *e || !(std::abs(v - want) <= tol)) c.fail("print-value", str(what, " printed as '", t, "', expected ", want, " after", hist)); };
                    const double cnt = double(m.total()), tgt = double(m.targetSum());
                    if (m.total() < 1000000000000ull) num(l[0], cnt, "accepted count", 0.4);
                    double rej = double(m.rejected); if (m.rejected2 != m.rejected && l[1] == std::to_string(m.rejected2)) rej = double(m.rejected2);
                    num(l[1], rej, "rejected count", 0.4); if (cnt + rej > 0) num(l[2], 100*cnt/(cnt+rej), "ratio", 0.0051);
                    if (tgt > 0 && cnt/tgt < 1e6) num(l[3], 100*cnt/tgt, "progress", 0.0051 + 1e-9*100*cnt/tgt);
                    c.count("prints");
                    break;
                }
            }
            ops[op]++;
            const bool w = cap.text().find("arning") != std::string::npos; if (w) warned++;
            check("query");
        }
        c.in << "history:" << hist; c.nontrivial();
        if (m.finished() && !m.target.empty()) c.count("ended_finished");
        (void)warned;
    };
    section("history", 20000, 1000000, [&](Rng& r, Case& c) { body(r, c, r.i(3, 40), false); });
    section("large", 300, 20000, [&](Rng& r, Case& c) { body(r, c, r.i(10, 80), true); });
    // the loop of the manual: draw until finished
    section("drawing-loop", 300, 20000, [&](Rng& r, Case& c) {
        F::SamplingStatus s; const int n = r.i(1, 4); std::vector<std::size_t> t(n), k(n, 0); std::size_t rej = 0, sum = 0;
        CoutCapture cap;
        for (int i = 0; i < n; ++i) { t[i] = r.i(1, 30); sum += t[i]; s.setTargetCount(F::Id(i+1), t[i]); c.in << t[i] << " "; }
        c.nontrivial(); c.sig = std::to_string(c.idx);
        for (long it = 0; !s.finished(); ++it)
        {
            if (it > 100000) { c.fail("no-progress", "the loop does not end"); break; }
            const int i = r.i(n); if (s.finished(F::Id(i+1))) { if (k[i] != t[i]) c.fail("finished-id", "finished early"); continue; }
            if (r.b(0.5)) { s.increaseRejectedCounter(); ++rej; if (r.b(0.3)) s.print(); continue; }
            s.increaseCounter(F::Id(i+1)); ++k[i]; s.print();
        }
        if (k != t) c.fail("counts", "loop ended with counts that differ from the targets");
        if (s.getCount() != sum) c.fail("counts", "total differs from the targets");
    });
    require("history:queries", 100000); require("history:prints", 5000); require("history:ended_finished", 100);
    return finish();
}
