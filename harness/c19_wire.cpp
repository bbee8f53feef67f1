// C19: what is exchanged follows the documented wire format.
#include "rpc.h"
#include "raw.h"
#include "c12_obj.h"
using namespace vp;
using namespace rpc;
using mref::Node;

// Any value.
struct Val {
    Node n;
    template <typename P> static void put(P& p, const Node& n) {
        switch (n.t) {
            case Node::NIL: p.pack_nil(); break;
            case Node::BOOL: if (n.u) p.pack_true(); else p.pack_false(); break;
            case Node::UINT: p.pack_uint64(n.u); break;
            case Node::NEG: p.pack_int64((int64_t)n.u); break;
            case Node::F32: p.pack_float((float)n.f()); break;
            case Node::F64: p.pack_double(n.f()); break;
            case Node::STR: p.pack_str((uint32_t)n.s.size()); p.pack_str_body(n.s.data(), (uint32_t)n.s.size()); break;
            case Node::BIN: p.pack_bin((uint32_t)n.s.size()); p.pack_bin_body(n.s.data(), (uint32_t)n.s.size()); break;
            case Node::EXT: p.pack_ext(n.s.size(), n.ext); p.pack_ext_body(n.s.data(), (uint32_t)n.s.size()); break;
            case Node::ARR: p.pack_array((uint32_t)n.c.size()); for (auto& x : n.c) put(p, x); break;
            case Node::MAP: p.pack_map((uint32_t)n.c.size() / 2); for (auto& x : n.c) put(p, x); break;
        }
    }
    template <typename P> void msgpack_pack(P& p) const { put(p, n); }
    void msgpack_unpack(veigar_msgpack::object const& o) { n = c12::toNode(o); }
    template <typename O> void msgpack_object(O* o, veigar_msgpack::zone& z) const {
        veigar_msgpack::sbuffer b;
        veigar_msgpack::packer<veigar_msgpack::sbuffer> p(b);
        put(p, n);
        veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
        *o = veigar_msgpack::object(h.get(), z);
    }
};

void vpInfo(Info& i) {
    i.id = "C19";
    i.watchdogMs = 60000;
    i.rule = "A case connects one instance with 1..3 channels that exist as bare queues and are served by an independent implementation of the format. 5..60 operations: the instance calls such a channel (any style, 0..4 arguments of any kind, "
             "any function name) and the message is compared field by field; it is answered in any valid encoding, in any order, with results or errors; bare channels call the instance with arguments of any kind in any encoding and "
             "their answers are compared, counted and looked for in all channels. Non-trivial: at least 3 calls in each direction.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["chans"] = r.range(1, 3);
    c.cfg["cap"] = r.range(10, 100);
    c.cfg["size"] = r.pick(std::vector<int64_t>{2000, 5000, 20000});
    c.cfg["rcap"] = r.range(80, 200);
    c.cfg["namelen"] = r.pick(std::vector<int64_t>{0, 0, 1, 5, 40});
    int64_t n = r.range(5, thorough ? 150 : 60);
    for (int64_t i = 0; i < n; i++) {
        int64_t s = (int64_t)(r.next() >> 8);
        switch (r.weighted({6, 4, 7, 1})) {
            case 0: c.ops.push_back(Op("out", {r.below(3), r.below(3), r.below(5), s})); break;   // channel, style, arguments
            case 1: c.ops.push_back(Op("ans", {r.below(20), r.below(4), s})); break;               // which outstanding call, kind
            case 2: c.ops.push_back(Op("in", {r.below(3), r.below(8), s, r.below(2)})); break;    // channel, function, widths
            default: c.ops.push_back(Op("drain", {})); break;
        }
    }
    return c;
}
bool vpValid(const Case& c) { return c.get("chans") >= 1 && c.get("cap") >= 5 && c.get("size") >= 2000 && c.get("rcap") >= 80; }

namespace {
Node limited(Rng& r) {
    for (;;) {
        Node n = mref::random(r, 3);
        if (mref::encode(n).size() < 900) return n;
    }
}
struct Outst {
    std::string id;
    std::shared_ptr<AsyncCallResult> p;
    std::shared_ptr<std::promise<CallResult>> pr;   // of callbacks and synchronous calls
    std::shared_ptr<std::atomic<int>> count;
    std::shared_ptr<std::thread> th;
};
struct InCall { std::string id; int chan; Node result; bool err; bool exec; Node arg; };
std::mutex mu;
std::map<uint64_t, std::vector<Node>> ran;   // token -> arguments seen
Node resultOf(uint64_t tok) { Rng r(tok * 77 + 5); return limited(r); }
}  // namespace

void vpRun(const Case& c) {
    const int nch = (int)c.get("chans");
    std::vector<raw::Queue> rc((size_t)nch), rr((size_t)nch);
    auto chName = [&](int i) { return prefix() + "r" + std::to_string(i) + std::string((size_t)c.get("namelen"), 'q'); };
    const std::string chV = prefix() + "v" + std::string((size_t)c.get("namelen"), 'w');
    for (int i = 0; i < nch; i++) VP_CHECK(rc[(size_t)i].create(chName(i) + "_call", (int)c.get("rcap"), 3000) && rr[(size_t)i].create(chName(i) + "_resp", (int)c.get("rcap"), 3000), "raw queues");
    Veigar v;
    v.setTimeoutOfRWLock(20000);
    auto rec = [](uint64_t tok, std::vector<Node> a) { std::lock_guard<std::mutex> lg(mu); if (ran.count(tok)) fail("a function ran twice for one message"); ran[tok] = std::move(a); };
    std::string oddName = std::string("odd\0name\xff ", 10) + std::string(100, 'n');
    bool b = v.bind("f", [=](uint64_t tok, Val a) { rec(tok, {a.n}); return Val{resultOf(tok)}; });
    b = b && v.bind("two", [=](uint64_t tok, Val a, Val d) { rec(tok, {a.n, d.n}); return Val{resultOf(tok)}; });
    b = b && v.bind("nothing", [=](uint64_t tok) { rec(tok, {}); });
    b = b && v.bind("throws", [=](uint64_t tok) -> int { rec(tok, {}); throw std::runtime_error("reason " + std::to_string(tok)); });
    b = b && v.bind(oddName, [=](uint64_t tok) { rec(tok, {}); return Val{resultOf(tok)}; });
    b = b && v.bind("typed", [=](uint64_t tok, std::map<std::string, std::vector<int16_t>> m, bool x) { rec(tok, {}); return std::make_tuple(m, x); });
    VP_CHECK(b && v.init(chV, (uint32_t)c.get("cap"), (uint32_t)c.get("size")), "start");
    raw::Queue vc, vr;
    VP_CHECK(vc.open(chV + "_call") && vr.open(chV + "_resp"), "cannot open the queues");

    std::vector<Outst> outs;
    std::map<std::string, InCall> ins;
    int nOut = 0, nIn = 0;
    uint64_t tok = 1;
    std::set<std::string> ids;
    auto complete = [&](Outst& x, bool err, const Node& val, const std::string& msg) {
        CallResult cr;
        if (x.p) {
            if (x.p->second.wait_for(std::chrono::seconds(20)) != std::future_status::ready) fail("a valid answer did not complete the call");
            cr = x.p->second.get();
            v.releaseCall(x.id);
        } else {
            auto f = x.pr->get_future();
            if (f.wait_for(std::chrono::seconds(20)) != std::future_status::ready) fail("a valid answer did not complete the call");
            cr = f.get();
            if (x.th) x.th->join();
        }
        if (err) {
            VP_CHECK(!cr.isSuccess(), "an error answer made the call succeed");
            VP_CHECK(!cr.errorMessage.empty(), "an error answer with an empty text gives a call without explanation");
            VP_CHECK(msg.empty() || cr.errorMessage == msg, "the error '%s' arrived as '%s'", hex(msg, 60).c_str(), hex(cr.errorMessage, 60).c_str());
        } else {
            VP_CHECK(cr.isSuccess(), "a good answer made the call fail: %s", describe(cr).c_str());
            c12::expectObj(cr.obj.get(), val, "the result of an answered call");
        }
    };
    auto answer = [&](size_t k, int kind, int64_t seed) {
        Outst x = outs[k];
        outs.erase(outs.begin() + (long)k);
        Rng r((uint64_t)seed);
        Node val = limited(r);
        std::string msg = kind == 3 && !r.chance(1, 6) ? "error " + r.bytes((size_t)r.below(60), (int)r.below(3)) : "";
        Node n = raw::answerNode(x.id, kind == 3 ? Node::str(msg) : Node::nil(), kind == 3 ? Node::nil() : val);
        Rng w(r.next());
        std::string m = mref::encode(n, kind ? &w : nullptr);
        phase(strf("an answer (kind %d): %s", kind, hex(m, 100).c_str()));
        if (vr.push(m, 20000) != raw::PUSHED) fail("the answer queue of the instance does not take a message");
        complete(x, kind == 3, val, msg);
    };
    auto drain = [&] {
        phase("draining");
        int64_t end = nowUs() + 20000000;
        while (!ins.empty()) {
            if (nowUs() > end) fail(strf("%zu calls of a raw peer were not answered, the first on channel %d", ins.size(), ins.begin()->second.chan));
            for (int i = 0; i < nch; i++) {
                std::string m;
                while (rr[(size_t)i].pop(m, 2)) {
                    size_t off = 0;
                    Node n;
                    VP_CHECK(mref::decode(m, off, n) == mref::OK && off == m.size(), "an answer is not one MessagePack value: %s", hex(m, 100).c_str());
                    VP_CHECK(n.t == Node::ARR && n.c.size() == 4, "an answer is no array of four: %s", mref::show(n).c_str());
                    VP_CHECK(n.c[0].t == Node::UINT && n.c[0].u == 1, "an answer starts with %s", mref::show(n.c[0]).c_str());
                    VP_CHECK(n.c[1].t == Node::STR, "the id of an answer is %s", mref::show(n.c[1]).c_str());
                    auto it = ins.find(n.c[1].s);
                    VP_CHECK(it != ins.end(), "an answer to no call (or a second one): %s", mref::show(n).c_str());
                    InCall& e = it->second;
                    VP_CHECK(e.chan == i, "the answer arrived at channel %d instead of %d", i, e.chan);
                    if (e.err) {
                        VP_CHECK(n.c[2].t == Node::STR && !n.c[2].s.empty(), "a failing call was answered with the error %s", mref::show(n.c[2]).c_str());
                        VP_CHECK(n.c[3].t == Node::NIL, "a failing call was answered with a result: %s", mref::show(n).c_str());
                    } else {
                        VP_CHECK(n.c[2].t == Node::NIL, "a good call was answered with the error %s", mref::show(n.c[2]).c_str());
                        VP_CHECK(c12::sameValue(n.c[3], e.result), "the result is %s instead of %s", mref::show(n.c[3]).c_str(), mref::show(e.result).c_str());
                    }
                    ins.erase(it);
                }
            }
        }
    };
    int nth = 0;
    for (auto& o : c.ops) {
        nth++;
        phase(strf("operation %d (%s)", nth, o.k.c_str()));
        if (o.k == "out") {
            if (outs.size() > 20) continue;
            Rng r((uint64_t)o.at(3));
            int ch = (int)(o.at(0) % nch);
            std::string fn = r.chance(1, 3) ? r.bytes((size_t)r.small(200), (int)r.below(3)) : "func" + std::to_string(r.below(100));
            std::vector<Val> a;
            for (int i = 0; i < 4; i++) a.push_back(Val{limited(r)});
            int na = (int)(o.at(2) % 5), style = (int)(o.at(1) % 3);
            Outst x;
            auto invoke = [&](auto... args) {
                if (style == 0) x.p = v.asyncCall(chName(ch), 100000, fn, args...);
                else {
                    x.pr = std::make_shared<std::promise<CallResult>>();
                    auto pr = x.pr;
                    if (style == 1) {
                        auto cnt = x.count = std::make_shared<std::atomic<int>>(0);
                        v.asyncCall([pr, cnt](const CallResult& cr) {
                            if (++*cnt > 1) fail("a callback ran twice");
                            CallResult k;
                            k.errCode = cr.errCode;
                            k.errorMessage = cr.errorMessage;
                            k.obj = veigar_msgpack::clone(cr.obj.get());
                            pr->set_value(std::move(k));
                        }, chName(ch), 100000, fn, args...);
                    } else {
                        std::string to = chName(ch);
                        x.th = std::make_shared<std::thread>([&v, pr, to, fn, args...] { pr->set_value(v.syncCall(to, 100000, fn, args...)); });
                    }
                }
            };
            if (na == 0) invoke(); else if (na == 1) invoke(a[0]); else if (na == 2) invoke(a[0], a[1]); else if (na == 3) invoke(a[0], a[1], a[2]); else invoke(a[0], a[1], a[2], a[3]);
            std::string m;
            if (!rc[(size_t)ch].pop(m, 20000)) fail("a call did not arrive in the call queue of its target");
            size_t off = 0;
            Node n;
            VP_CHECK(mref::decode(m, off, n) == mref::OK && off == m.size(), "a call is not one MessagePack value: %s", hex(m, 100).c_str());
            VP_CHECK(n.t == Node::ARR && n.c.size() == 5, "a call is no array of five: %s", mref::show(n).c_str());
            VP_CHECK(n.c[0].t == Node::UINT && n.c[0].u == 0, "a call starts with %s", mref::show(n.c[0]).c_str());
            VP_CHECK(n.c[1].t == Node::STR && !n.c[1].s.empty() && ids.insert(n.c[1].s).second, "the call id is %s", mref::show(n.c[1]).c_str());
            VP_CHECK(n.c[2].t == Node::STR && n.c[2].s == chV, "the caller channel is %s", mref::show(n.c[2]).c_str());
            VP_CHECK(n.c[3].t == Node::STR && n.c[3].s == fn, "the function name is %s instead of %s", mref::show(n.c[3]).c_str(), hex(fn, 40).c_str());
            VP_CHECK(n.c[4].t == Node::ARR && (int)n.c[4].c.size() == na, "the arguments are %s instead of %d", mref::show(n.c[4]).c_str(), na);
            for (int i = 0; i < na; i++) VP_CHECK(c12::sameValue(n.c[4].c[(size_t)i], a[(size_t)i].n), "argument %d is %s instead of %s", i, mref::show(n.c[4].c[(size_t)i]).c_str(), mref::show(a[(size_t)i].n).c_str());
            x.id = n.c[1].s;
            if (x.p) VP_CHECK(x.p->first == x.id, "the call id reported to the caller differs from the one sent");
            outs.push_back(x);
            nOut++;
        } else if (o.k == "ans") {
            if (!outs.empty()) answer((size_t)(o.at(0) % (int64_t)outs.size()), (int)(o.at(1) % 4), o.at(2));
        } else if (o.k == "in") {
            if (ins.size() > 30) drain();
            Rng r((uint64_t)o.at(2));
            int ch = (int)(o.at(0) % nch);
            InCall e;
            e.chan = ch;
            e.err = false;
            e.exec = true;
            uint64_t t = tok++;
            e.id = std::to_string(nth) + "#" + r.bytes((size_t)r.small(100), (int)r.below(3));
            std::string fn;
            std::vector<Node> args{Node::uinteger(t)};
            std::vector<Node> seen;
            e.result = resultOf(t);
            switch (o.at(1) % 8) {
                case 0: case 1: fn = "f"; args.push_back(limited(r)); seen = {args[1]}; break;
                case 2: fn = "two"; args.push_back(limited(r)); args.push_back(limited(r)); seen = {args[1], args[2]}; break;
                case 3: fn = "nothing"; e.result = Node::nil(); break;
                case 4: fn = "throws"; e.err = true; break;
                case 5: fn = oddName; break;
                case 6: {
                    fn = "typed";
                    std::map<std::string, std::vector<int16_t>> mp;
                    for (int i = (int)r.below(4); i > 0; i--) { auto& z = mp[r.bytes((size_t)r.below(20), 1)]; for (int k = (int)r.below(20); k > 0; k--) z.push_back((int16_t)r.next()); }
                    std::vector<Node> mm;
                    for (auto& k : mp) { mm.push_back(Node::str(k.first)); std::vector<Node> q; for (auto z : k.second) q.push_back(Node::integer(z)); mm.push_back(Node::arr(q)); }
                    bool x = r.chance(1, 2);
                    args.push_back(Node::map(mm));
                    args.push_back(Node::boolean(x));
                    e.result = Node::arr({args[1], args[2]});
                    break;
                }
                default: fn = "unknown" + r.bytes((size_t)r.below(30), (int)r.below(3)); e.err = true; e.exec = false; args.push_back(limited(r)); break;
            }
            Rng w(r.next());
            std::string m = mref::encode(raw::callNode(e.id, chName(ch), fn, args), o.at(3) ? &w : nullptr);
            if (m.size() > (size_t)(c.get("cap") * c.get("size"))) continue;
            phase(strf("operation %d: a call of %s: %s", nth, hex(fn, 30).c_str(), hex(m, 100).c_str()));
            ins[e.id] = e;
            if (vc.push(m, 20000) != raw::PUSHED) fail("the call queue of the instance does not take a message");
            if (e.exec) {
                waitFor(20000, [&] { std::lock_guard<std::mutex> lg(mu); return ran.count(t) > 0; }, 100);
                std::lock_guard<std::mutex> lg(mu);
                VP_CHECK(ran.count(t), "a valid call of '%s' was not executed: %s", hex(fn, 30).c_str(), hex(m, 200).c_str());
                auto& got = ran[t];
                VP_CHECK(got.size() == seen.size(), "wrong number of arguments");
                for (size_t i = 0; i < got.size(); i++) VP_CHECK(mref::eq(got[i], seen[i]), "argument %zu arrived as %s instead of %s", i + 1, mref::show(got[i]).c_str(), mref::show(seen[i]).c_str());
            }
            nIn++;
        } else drain();
    }
    drain();
    while (!outs.empty()) answer(outs.size() - 1, (int)(outs.size() % 4), (int64_t)outs.size() * 991);
    phase("end");
    // nothing else comes
    sleepUs(3000);
    for (int i = 0; i < nch; i++) {
        std::string m;
        if (rr[(size_t)i].pop(m, 0)) fail("an additional message in an answer queue: " + hex(m, 100));
        if (rc[(size_t)i].pop(m, 0)) fail("an additional message in a call queue: " + hex(m, 100));
    }
    VP_CHECK(vc.number() == 0 && vr.number() == 0, "messages stay in the queues of the instance");
    v.uninit();
    for (int i = 0; i < nch; i++) { rc[(size_t)i].close(); rr[(size_t)i].close(); }
    vc.close();
    vr.close();
    metric("calls of the instance", nOut);
    metric("calls of raw peers", nIn);
    if (nOut >= 3 && nIn >= 3) nontrivial();
}
