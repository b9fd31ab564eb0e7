// C18: exit codes, complete outputs and untouched files of the program under
// wrong arguments and inputs and under faults of all its file operations.
#include "cli.hpp"
void drv::setup(drv::Ctx&) {}
void drv::teardown(drv::Ctx&) {}
using namespace cli;
using drv::cat;
using gen::Rng;

namespace
{

struct Place
{
    std::string dir, l = "left.pgm", r = "right.pgm", o = "out.pgm";
    std::string lt, rt, old;  // contents of inputs and of the old output
    bool has_old = false;
    Instance in;
    ref::Labeling want;
    std::string at(const std::string& n) const { return dir + "/" + n; }
};

const std::string OLD = "this file was here before the program\n";

void lay(Place& p)
{
    clean(p.dir);
    put(p.at(p.l), p.lt);
    put(p.at(p.r), p.rt);
    if (p.has_old) put(p.at(p.o), p.old);
}

std::vector<std::string> args(const Place& p)
{
    return {"-l", p.l, "-r", p.r, "-o", p.o, "-d", std::to_string(p.in.D),
            "-c", drv::S(p.in.c), "-s", drv::S(p.in.s)};
}

std::string words(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) s += " " + x;
    return s;
}

enum Expect { SUCCESS, FAILURE, EITHER };

// Runs the program once and checks everything the property says about it.
// before_output: the fault is in the arguments or inputs.
bool check(drv::Ctx& c, const Place& p, const std::vector<std::string>& a,
           const Options& opt, Expect e, bool before_output,
           const std::string& what, bool abort_allowed = false)
{
    File l0 = look(p.at(p.l)), r0 = look(p.at(p.r)), o0 = look(p.at(p.o));
    Outcome res = run(aux(c, "cli"), a, p.dir, opt);
    File l1 = look(p.at(p.l)), r1 = look(p.at(p.r)), o1 = look(p.at(p.o));
    std::string ctx = cat(" with ", what, "; arguments:", words(a), "; ",
                          res.show(), "; W=", p.in.W, " H=", p.in.H, " D=",
                          p.in.D);
    c.count("runs");
    auto bad = [&](const char* key, const std::string& t) {
        c.viol(key, t + ctx);
        return false;
    };
    if (res.timeout) return bad("hang", "no end of the program");
    if (!res.exited && !(abort_allowed && res.code == SIGABRT))
        return bad("crash", "the program was ended by a signal");
    if (res.err.find("Sanitizer") != std::string::npos
        || res.err.find("runtime error") != std::string::npos)
        return bad("sanitizer", "sanitizer report");
    if (!l0.same(l1) || !r0.same(r1))
        return bad("input-modified", "an input was modified");
    bool zero = res.exited && res.code == 0;
    if (zero)
    {
        if (!o1.exists || !S_ISREG(o1.mode))
            return bad("zero-without-output", "exit code zero without output");
        std::string d = compare(o1.content, p.in, p.want);
        if (!d.empty())
            return bad("zero-with-wrong-output",
                       "exit code zero, but the output is " + d);
        c.count("complete-outputs");
    }
    else
    {
        c.count("failures-reported");
        if (res.err.find_first_not_of(" \n\t") == std::string::npos)
            return bad("no-message", "failure without a message");
        if (before_output && !o0.same(o1))
            return bad("output-touched",
                       "a refused run touched the output file");
    }
    if (e == SUCCESS && !zero)
        return bad("failed", "failure without a reason");
    if (e == FAILURE && zero)
        return bad("zero-on-failure", "exit code zero on a failure");
    return true;
}

struct Log { int64_t opens, reads, writes, closes, hits, news; };

Log log_of(const std::string& path)
{
    Log l = {0, 0, 0, 0, 0, 0};
    std::ifstream f(path, std::ios::binary);
    f.read((char*)&l, sizeof l);
    return l;
}

Options fault(drv::Ctx& c, const Place&, const std::string& target,
              const std::string& op, long nth, bool every, int err)
{
    Options o;
    std::string log = c.scratch + "/faults.log";
    unlink(log.c_str());
    o.env = {"LD_PRELOAD=" + aux(c, "preload"), "VF_TARGET=" + target,
             "VF_OP=" + op, cat("VF_NTH=", nth), cat("VF_EVERY=", every ? 1 : 0),
             cat("VF_ERR=", err), "VF_LOG=" + log};
    return o;
}

void faults(drv::Ctx& c, Rng& r, Place& p)
{
    std::string log = c.scratch + "/faults.log";
    // How many operations of each kind are there?
    for (int who = 0; who < 3; ++who)
    {
        std::string name = who == 0 ? p.l : who == 1 ? p.r : p.o;
        bool out = who == 2;
        lay(p);
        if (!check(c, p, args(p), fault(c, p, name, "open", 0, false, 0),
                   SUCCESS, false, "no fault"))
            return;
        Log n = log_of(log);
        if (!n.opens)
        {
            c.count("files-opened-by-unknown-means");
            continue;
        }
        c.maximum("writes-of-an-output", (uint64_t)n.writes);
        struct Op { const char* name; int64_t n; };
        const Op ops[] = {{"open", n.opens}, {"read", n.reads},
                          {"write", n.writes}, {"close", n.closes}};
        for (auto& op : ops)
        {
            std::string on = op.name;
            if (!out && (on == "write" || on == "close")) continue;
            std::vector<int> errs;
            if (on == "open") errs = {EACCES, ENOENT, EMFILE, EROFS};
            if (on == "read") errs = {EIO, EINTR, 0};
            if (on == "write") errs = {ENOSPC, EIO, EINTR, EDQUOT, 0};
            if (on == "close") errs = {EIO, ENOSPC};
            std::vector<long> at;
            for (long k = 1; k <= op.n; ++k)
                if (op.n <= 12 || k <= 3 || k + 3 >= op.n
                    || r.chance(8, (ul)op.n))
                    at.push_back(k);
            for (long k : at)
                for (int err : errs)
                    for (int every = 0; every < 2; ++every)
                    {
                        bool soft = err == 0 || err == EINTR;
                        // Interrupted forever is not a realistic fault.
                        if (every && (err == EINTR || on == "open"
                                      || on == "close"))
                            continue;
                        if (r.chance(c.thorough ? 0 : 1, 3)) continue;
                        lay(p);
                        std::string what = cat(
                            soft ? err ? "an interrupted " : "a short "
                                 : "a failure of ",
                            on, " ", k, every ? " and all later ones" : "",
                            " of ", name, " (errno ", err, ")",
                            p.has_old ? ", the output existed" : "");
                        Expect e = EITHER;
                        if (on == "open" && !soft) e = FAILURE;
                        // A write which failed once might be repeated, the
                        // check of a successful exit looks at the output.
                        if (on == "write" && !soft && every) e = FAILURE;
                        bool first = !out || on == "open";
                        // Failures to open the output leave the old one.
                        if (!check(c, p, args(p),
                                   fault(c, p, name, on, k, every, err), e,
                                   first, what))
                            return;
                        Log h = log_of(log);
                        if (h.hits)
                        {
                            c.count(cat("faults-of-", on));
                            c.distinct(drv::hash(cat(p.in.str(), who, on, k,
                                                     err, every)));
                        }
                        if (out && on == "close" && h.hits
                            && h.closes == h.hits)
                        {
                            // Nothing repeated it: has to be a failure.
                            lay(p);
                            if (!check(c, p, args(p),
                                       fault(c, p, name, on, k, every, err),
                                       FAILURE, false, what))
                                return;
                        }
                    }
        }
    }
    c.sample(cat("W=", p.in.W, " H=", p.in.H, " D=", p.in.D,
                 ": a fault of each operation on each file"));
}

// The program runs out of memory at some point: it says so, or its output is
// complete.
void memory(drv::Ctx& c, Rng& r, Place& p)
{
    std::string log = c.scratch + "/faults.log";
    lay(p);
    if (!check(c, p, args(p), fault(c, p, "", "new", 0, false, 0), SUCCESS,
               false, "no fault"))
        return;
    int64_t n = log_of(log).news;
    c.maximum("allocations-of-a-run", (uint64_t)n);
    for (int64_t k = 1; k <= n; ++k)
    {
        if (k + 5 < n && !r.chance(c.thorough ? 200 : 60, (ul)n)) continue;
        // From now on there is no memory. A single failure could be lost in a
        // stream of strings, nobody guards against that.
        lay(p);
        // Before and after main(), nothing but an abort is possible.
        if (!check(c, p, args(p), fault(c, p, "", "new", k, true, ENOMEM),
                   EITHER, false,
                   cat("failures of allocation ", k, " of ", n,
                       " and all later ones"), true))
            return;
        if (!log_of(log).hits) continue;
        c.count("failed-allocations");
        c.distinct(drv::hash(cat(p.in.str(), "memory", k)));
    }
}

void limits(drv::Ctx& c, Rng& r, Place& p)
{
    // The file cannot get longer than this many bytes.
    size_t total = 0;
    {
        lay(p);
        if (!check(c, p, args(p), Options(), SUCCESS, false, "no limit"))
            return;
        total = look(p.at(p.o)).content.size();
    }
    for (size_t n = 0; n <= total; ++n)
    {
        if (n > 3 && n + 3 < total && !r.chance(20, total)) continue;
        lay(p);
        Options o;
        o.fsize = (long)n;
        if (!check(c, p, args(p), o, n < total ? FAILURE : SUCCESS, false,
                   cat("a limit of ", n, " bytes of ", total)))
            return;
        c.count("size-limits");
        c.distinct(drv::hash(cat(p.in.str(), "limit", n)));
    }
}

void outputs(drv::Ctx& c, Rng&, Place& p)
{
    auto one = [&](const std::string& path, const std::string& what) {
        lay(p);
        mkdir(p.at("dir").c_str(), 0755);
        std::vector<std::string> a = args(p);
        a[5] = path;
        c.count("bad-outputs");
        c.distinct(drv::hash(cat(p.in.str(), what)));
        return check(c, p, a, Options(), FAILURE, true, what);
    };
    if (!one("dir", "a directory as the output")) return;
    if (!one("nowhere/out.pgm", "a missing directory")) return;
    if (!one("left.pgm/out.pgm", "a file as a directory")) return;
    if (!one(std::string(300, 'x'), "a too long name")) return;
    if (!one("/dev/full", "a full device")) return;
    // An older, longer file is replaced as a whole.
    Place q = p;
    q.has_old = true;
    q.old = std::string(5000, '7') + "\n";
    lay(q);
    if (!check(c, q, args(q), Options(), SUCCESS, false,
               "an older longer output"))
        return;
    c.count("replaced-outputs");
    // Through a symbolic link, existing or dangling.
    for (int k = 0; k < 2; ++k)
    {
        lay(q);
        unlink(q.at(q.o).c_str());
        if (k) put(q.at("target.pgm"), OLD);
        if (symlink("target.pgm", q.at(q.o).c_str())) _exit(78);
        Outcome res = run(aux(c, "cli"), args(q), q.dir);
        std::string ctx = cat(" with a symbolic link as the output: ",
                              res.show());
        if (res.exited && res.code == 0)
        {
            std::ifstream f(q.at(q.o));
            std::string t((std::istreambuf_iterator<char>(f)),
                          std::istreambuf_iterator<char>());
            std::string d = compare(t, q.in, q.want);
            if (!d.empty())
                return (void)c.viol("zero-with-wrong-output", d + ctx);
        }
    }
}

void inputs(drv::Ctx& c, Rng& r, Place& p)
{
    auto one = [&](Place& q, std::vector<std::string> a,
                   const std::string& what) {
        c.count("bad-inputs");
        c.distinct(drv::hash(cat(q.lt, "|", q.rt, words(a), what)));
        return check(c, q, a, Options(), FAILURE, true, what);
    };
    for (int who = 0; who < 2; ++who)
    {
        std::string side = who ? "right" : "left";
        ul index = who ? 3 : 1;
        {
            lay(p);
            auto a = args(p);
            a[index] = "missing.pgm";
            if (!one(p, a, "a missing " + side + " image")) return;
            mkdir(p.at("dir").c_str(), 0755);
            a[index] = "dir";
            if (!one(p, a, "a directory as the " + side + " image")) return;
            a[index] = "/dev/null";
            if (!one(p, a, "an empty device as the " + side + " image"))
                return;
            a[index] = "left.pgm/x";
            if (!one(p, a, "a file as a directory of the " + side + " image"))
                return;
        }
        // Damaged texts.
        for (int k = 0; k < 6; ++k)
        {
            Place q = p;
            std::string& t = who ? q.rt : q.lt;
            std::string what;
            switch (r.in(0, 4))
            {
                case 0:
                    t = "";
                    what = "empty";
                    break;
                case 1:
                    t = t.substr(0, r.in(0, t.size() - 1));
                    what = "truncated";
                    break;
                case 2:
                    t = std::string("P5\n3 3\n255\n\0\1\2\3\4\5\6\7\10", 20);
                    what = "binary";
                    break;
                default:
                {
                    std::vector<std::string> tok;
                    std::istringstream s(t);
                    for (std::string x; s >> x;) tok.push_back(x);
                    tok = pgm::damage(r, tok, what);
                    t = pgm::join(r, tok);
                }
            }
            if (pgm::parse(t).verdict != pgm::REJECT) continue;
            lay(q);
            if (!one(q, args(q), "the " + side + " image wrong: " + what))
                return;
            c.count("damaged-images");
        }
        // Right images which do not make a problem.
        for (int k = 0; k < 5; ++k)
        {
            Place q = p;
            Instance i = q.in;
            std::string what;
            auto& v = who ? i.R : i.L;
            ul w = i.W, h = i.H, m = i.maxv;
            switch (k)
            {
                case 0: ++h; v.resize(w * h, 0); what = "higher"; break;
                case 1: ++w; v.resize(w * h, 0); what = "wider"; break;
                case 2:
                    if (m == 65536) continue;
                    ++m;
                    what = "of another maximal value";
                    break;
                case 3:
                    if (h == 1) continue;
                    --h;
                    v.resize(w * h);
                    what = "lower";
                    break;
                default:
                    if (w == h || w < 2) continue;
                    std::swap(w, h);
                    what = "rotated";
            }
            (who ? q.rt : q.lt) = cli::text(w, h, m, v);
            lay(q);
            if (!one(q, args(q), "the " + side + " image " + what)) return;
        }
    }
}

void arguments(drv::Ctx& c, Rng& r, Place& p)
{
    std::vector<std::string> a = args(p);
    std::vector<std::vector<std::string>> opts;
    for (size_t i = 0; i < a.size(); i += 2) opts.push_back({a[i], a[i + 1]});
    auto flat = [](const std::vector<std::vector<std::string>>& o) {
        std::vector<std::string> v;
        for (auto& x : o) v.insert(v.end(), x.begin(), x.end());
        return v;
    };
    auto one = [&](const std::vector<std::string>& v, const std::string& what) {
        lay(p);
        c.count("bad-arguments");
        c.distinct(drv::hash(cat(words(v), p.in.str())));
        return check(c, p, v, Options(), FAILURE, true, what);
    };
    // Subsets of the needed arguments.
    for (int mask = 0; mask < 7; ++mask)
    {
        std::vector<std::vector<std::string>> o;
        for (size_t i = 0; i < opts.size(); ++i)
            if (i >= 3 || (mask >> i & 1)) o.push_back(opts[i]);
        for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[r.in(0, i)]);
        if (!one(flat(o), "missing arguments")) return;
        if (mask)
        {
            o.clear();
            for (size_t i = 0; i < 3; ++i)
                if (mask >> i & 1) o.push_back(opts[i]);
            if (!one(flat(o), "missing arguments, nothing else")) return;
        }
    }
    // A single argument.
    for (auto& x : opts)
    {
        if (!one({x[0] + x[1]}, "a single argument")) return;
        if (x[0] != "-l" && x[0] != "-r" && x[0] != "-o") continue;
        std::string n = x[0] == "-l" ? "--left-image="
            : x[0] == "-r" ? "--right-image=" : "--output-image=";
        if (!one({n + x[1]}, "a single argument, long")) return;
    }
    // Values which cannot be used.
    const char* values[][2] = {
        {"-d", "0"}, {"-d", "1"}, {"-d", "-1"}, {"-d", "x"}, {"-d", "-"},
        {"-d", "99999999999999999999999"}, {"-c", "-1"}, {"-s", "-1"},
        {"-c", "x"}, {"-s", "y"}, {"-c", "1e9999"}, {"-s", "nan"},
        {"-c", "inf"}, {"-p", "x"}, {"-p", "gpu"}, {"-p", "cpu2"}};
    for (auto& v : values)
    {
        auto o = opts;
        bool found = false;
        for (auto& x : o)
            if (x[0] == v[0])
            {
                x[1] = v[1];
                found = true;
            }
        if (!found) o.push_back({v[0], v[1]});
        if (!one(flat(o), cat("value ", v[1], " of ", v[0]))) return;
    }
    {
        auto o = opts;
        for (auto& x : o) if (x[0] == "-d") x[1] = std::to_string(p.in.W + 1);
        if (!one(flat(o), "more levels than columns")) return;
        o = opts;
        for (auto& x : o) if (x[0] == "-c" || x[0] == "-s") x[1] = "0";
        if (!one(flat(o), "zero weights")) return;
    }
    const char* unknown[] = {"--foo", "-x", "--output=1", "--verbose"};
    for (auto& u : unknown)
    {
        if (std::string(u).find("--output") == 0) continue;
        auto v = flat(opts);
        v.insert(v.begin() + 2 * r.in(0, opts.size()), u);
        if (!one(v, cat("unknown option ", u))) return;
    }
    for (auto& x : opts)
    {
        auto v = flat(opts);
        v.insert(v.end(), x.begin(), x.end());
        if (!one(v, "option " + x[0] + " given twice")) return;
        v = flat(opts);
        for (size_t i = 0; i < v.size(); i += 2)
            if (v[i] == x[0])
            {
                v.erase(v.begin() + i, v.begin() + i + 2);
                break;
            }
        v.push_back(x[0]);
        if (!one(v, "option " + x[0] + " without a value")) return;
    }
    // Only help.
    for (const char* h : {"-h", "--help"})
    {
        lay(p);
        File o0 = look(p.at(p.o)), l0 = look(p.at(p.l));
        Outcome res = run(aux(c, "cli"), {h}, p.dir);
        c.count("help");
        if (!res.exited || res.code != 0)
            return (void)c.viol("help", cat("help fails: ", res.show()));
        if (!o0.same(look(p.at(p.o))) || !l0.same(look(p.at(p.l))))
            return (void)c.viol("help", "help changes files");
    }
}

}

void drv::run_case(Ctx& c, Rng& r)
{
    Place p;
    p.dir = fresh(c);
    gen::Limits l;
    l.maxW = 7; l.maxH = 5; l.maxD = 5;
    if (r.chance(1, 6)) l.maxW = 12, l.maxH = 20;
    p.in = gen::instance(r, l);
    if (p.in.c == 0 && p.in.s == 0) p.in.c = 1;
    p.want = expected(p.in);
    p.lt = cli::text(r, p.in.W, p.in.H, p.in.maxv, p.in.L);
    p.rt = cli::text(r, p.in.W, p.in.H, p.in.maxv, p.in.R);
    p.has_old = r.chance(1, 2);
    p.old = OLD;
    lay(p);
    if (!check(c, p, args(p), Options(), SUCCESS, false, "nothing wrong"))
        return;
    std::string mode = aux(c, "mode");
    if (mode == "faults")
    {
        if (r.chance(1, 3)) memory(c, r, p);
        else if (r.chance(3, 4)) faults(c, r, p);
        else limits(c, r, p);
    }
    else
    {
        switch (r.in(0, 2))
        {
            case 0: outputs(c, r, p); break;
            case 1: inputs(c, r, p); break;
            default: arguments(c, r, p);
        }
    }
    clean(p.dir);
}
