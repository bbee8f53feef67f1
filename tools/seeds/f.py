SEEDS = [
    dict(id="unbind-inside", property="C20",
         needs="A function whose captured state uses the interface when it ends (its destructor lists or unbinds names), and that is unbound while it does not run.",
         what_it_breaks="unbind releases the function while it has the table locked: the destructor waits for the lock of its own thread, and all later calls, binds and listings hang.",
         edits=[("src/call_dispatcher.cpp", """    auto it = funcs_.find(name);
    if (it != funcs_.end()) {
        func = std::move(it->second);
        funcs_.erase(it);
    }
""", """    auto it = funcs_.find(name);
    if (it != funcs_.end()) {
        if (it->second.use_count() > 1) {
            func = it->second;  // it is running
        }
        funcs_.erase(it);
    }
""")],
         demo="""struct End { Veigar* v; ~End() { if (v) v->bindNames(); } };
int main() {
    Veigar v;
    REQUIRE(v.init(N("a"), 10, 300), "init");
    { auto e = std::make_shared<End>(); e->v = &v; REQUIRE(v.bind("f", [e]() { return 1; }), "bind"); }
    REQUIRE(v.syncCall(N("a"), 3000, "f").isSuccess(), "call");
    std::atomic<bool> done{false};
    std::thread t([&] { v.unbind("f"); done = true; });
    for (int i = 0; i < 500 && !done; i++) ms(10);
    REQUIRE(done, "unbind hangs");
    t.join();
    v.uninit();
}
"""),
    dict(id="id-restart", property="C22",
         needs="An instance that is uninitialised and initialised again, and calls of the same function in both lives.",
         what_it_breaks="The numbering starts again while the unique part of the ids is kept: the calls of the second life carry the ids of the first.",
         edits=[("src/veigar.cpp", """            uuid_ = UUID::Create();
            if (uuid_.empty()) {
""", """            if (uuid_.empty()) {
                uuid_ = UUID::Create();
            }
            if (uuid_.empty()) {
"""), ("src/veigar.cpp", """        setWorkers(nullptr, nullptr);

        isInit_ = false;
""", """        setWorkers(nullptr, nullptr);
        callIndex_ = 0;

        isInit_ = false;
""")],
         demo="""int main() {
    Veigar a, b;
    std::string ids[2];
    for (int i = 0; i < 2; i++) {
        REQUIRE(a.init(N("a"), 10, 300), "init");
        MessageQueue q(10, 300);
        REQUIRE(q.create(N("peer") + "_call"), "queue");
        auto p = a.asyncCall(N("peer"), 1000, "f", 5);
        REQUIRE(p, "call");
        ids[i] = p->first;
        a.releaseCall(p->first);
        ms(100);
        a.uninit();
        q.close();
    }
    REQUIRE(ids[0] != ids[1], "two calls have the id %s", ids[0].c_str());
}
"""),
    dict(id="resp-hoist", property="C11",
         needs="One message in the response queue with several answers: an error to a callback call, followed by a result for another call.",
         what_it_breaks="The result is no longer made anew for each answer: the second call is completed as failed, with the error text of the first.",
         edits=[("src/resp_dispatcher.cpp", """        size_t msgOffset = 0;
        do {
            veigar_msgpack::object_handle obj;
            bool nextRet = false;
""", """        size_t msgOffset = 0;
        CallResult callRet;
        do {
            veigar_msgpack::object_handle obj;
            bool nextRet = false;
"""), ("src/resp_dispatcher.cpp", """            ResultMeta retMeta;
            CallResult callRet;
            std::string callId;
""", """            ResultMeta retMeta;
            std::string callId;
""")],
         demo="""int main() {
    Veigar a;
    REQUIRE(a.init(N("a"), 10, 2000), "init");
    MessageQueue q(10, 2000);
    REQUIRE(q.create(N("peer_call_q")) , "queue");
    q.close();
    Veigar peer;
    peer.bind("slow", [] { ms(1500); return 1; });
    REQUIRE(peer.init(N("peer"), 10, 2000), "init");
    struct { std::string first; } idOf, *p1 = &idOf;
    std::atomic<int> failed{0};
    auto p0 = a.asyncCall(N("peer"), 5000, "slow");
    a.asyncCall([&](const CallResult& c) { failed = c.isSuccess() ? 2 : 1; }, N("peer"), 5000, "slow");
    idOf.first = p0->first;
    size_t at = idOf.first.rfind("0_slow");
    REQUIRE(at != std::string::npos, "call id %s", idOf.first.c_str());
    idOf.first.replace(at, 1, "1");
    auto p2 = a.asyncCall(N("peer"), 5000, "slow");
    ms(100);
    veigar_msgpack::sbuffer sb;
    veigar_msgpack::packer<veigar_msgpack::sbuffer> pk(sb);
    pk.pack_array(4); pk.pack(1); pk.pack(p1->first); pk.pack("no"); pk.pack_nil();
    pk.pack_array(4); pk.pack(1); pk.pack(p2->first); pk.pack_nil(); pk.pack(8);
    std::string name;
    for (const char* suffix : {"_resp", "_response", "_resp_queue"}) if (shmNames(N("a") + suffix + "_shm")) name = N("a") + suffix;
    if (name.empty()) {
        DIR* d = opendir("/dev/shm");
        while (dirent* e = readdir(d)) if (strstr(e->d_name, (N("a") + "_").c_str()) && strstr(e->d_name, "resp") && strstr(e->d_name, "_shm")) { name = e->d_name; name.resize(name.size() - 4); }
        closedir(d);
    }
    REQUIRE(!name.empty(), "response queue");
    MessageQueue r(10, 2000);
    REQUIRE(r.open(name), "open");
    REQUIRE(r.processRWLock(1000), "lock");
    REQUIRE(r.pushBack(sb.data(), (int64_t)sb.size()), "push");
    r.processRWUnlock();
    r.notifyRead();
    CallResult c2 = p2->second.get();
    r.close();
    int v = 0;
    REQUIRE(failed == 1, "the answer to the first call was not taken");
    REQUIRE(c2.isSuccess() && c2.convertObject(v) && v == 8, "the well-formed answer completed its call as failed: %s", c2.errorMessage.c_str());
    p0->second.wait();
    a.uninit();
    peer.uninit();
}
"""),
]
