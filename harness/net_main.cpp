#include "net.h"

struct Ctx {
    Scale sc;
    double unit = 1;
    std::vector<std::shared_ptr<ModelLayer>> objs;
    std::vector<bool> known;
    struct Net {std::shared_ptr<Model> model; int first; std::map<int, ModelResults<std::string>> rs;};
    std::vector<Net> nets;

    ModelLayer& obj(const vj::Val& e){
        size_t o = e["o"].i();
        if (o >= objs.size()) throw vj::HarnessMistake{"no such layer"};
        return *objs[o];
    }
    Net& net(const vj::Val& e){
        size_t m = e["m"].i();
        if (m >= nets.size()) throw vj::HarnessMistake{"no such net"};
        return nets[m];
    }
    std::string params(){
        Out o;
        for (size_t i = 0; i < objs.size(); i++){
            if (!known[i]) continue;
            o.raw("{\"o\":" + std::to_string(i) + ",\"w\":" + pairOf(objs[i]->weights, sc) + ",\"b\":" + pairOf(objs[i]->biases, sc) + "}");
        }
        return o.done();
    }
};

static double endOf(const std::string& s){
    if (s == "0") return 0;
    const double m = s[1] == 'M' ? std::numeric_limits<double>::max() : s[1] == 'B' ? 1.2e308 : s[1] == 'L' ? 3e300 : s[1] == 'T' ? 1e-12 : 1e-300;
    return s[0] == '-' ? -m : m;
}
static std::string kindOf(double y, double x){
    const auto is = [y](double v){return std::fabs(y - v) <= 1e-7*std::fabs(v);};
    return !std::isfinite(y) ? "no number" : y == 0 ? "0" : is(x) ? "same" : is(x/10) ? "tenth" : is(1) ? "1" : is(-1) ? "-1"
         : is(0.5) ? "1/2" : is(0.25) ? "1/4" : is(0.1) ? "1/10" : "other";
}

// Runs f, which returns extra result fields; exceptions of the library are a refusal
template<typename F>
std::string guarded(Ctx& c, F f){
    std::string extra, outcome = "ok", what;
    try {extra = f();}
    catch (vj::HarnessMistake&){throw;}
    catch (std::exception& e){outcome = "refused"; what = e.what();}
    catch (...){outcome = "refused"; what = "not a std::exception";}
    if (outcome != "ok") extra = "\"res\":[],\"what\":" + vj::quote(what);
    return "\"out\":\"" + outcome + "\"," + extra + ",\"ps\":" + c.params();
}
static std::string resOf(const std::string& s){return "\"res\":" + s;}
static std::string qOf(const DMat& m, double scale){
    return "\"q\":" + recOf(m, [scale](double x){return roundNum(x, scale);});
}

static std::string handle(Ctx& c, const vj::Val& e){
    const std::string& op = e["op"].s();
    const Scale& sc = c.sc;
    const double S = c.sc.S;

    if (op == "reset"){
        // all numbers of the case may lie on the grid times a power of two (for what does not depend on the unit)
        c.unit = e.has("E") ? std::ldexp(1.0, e["E"].i()) : 1;
        c.sc.S = e["S"].d()/c.unit;
        c.sc.round = e["rn"].i() != 0;
        return guarded(c, [&]{return resOf("[]");});
    }
    if (op == "new") return guarded(c, [&]{
        c.objs.push_back(makeLayer(e["c"], S));
        c.known.push_back(false);
        return resOf("[]");
    });
    if (op == "set") return guarded(c, [&]{
        ModelLayer& L = c.obj(e);
        DMat w = toMat(e["w"], S), b = toMat(e["b"], S);
        // a new fully connected layer takes its shape from its first input
        if (auto F = dynamic_cast<ConnectedLayer*>(&L); F && F->weights.size() == 0)
            F->propagateForward(DMat(dim3(w.dim().y, 1, 1)));
        L.weights = w;
        L.biases  = b;
        c.known[e["o"].i()] = true;
        return resOf("[]");
    });
    if (op == "dset") return guarded(c, [&]{
        ModelLayer& L = c.obj(e);
        DMat w = toMat(e["w"], S), b = toMat(e["b"], S);
        std::stringstream ss;
        if (auto K = dynamic_cast<Kernel*>(&L)){
            const int n = K->num_filters;
            ss << "Kernel\nx " << w.dim().x << "\ny " << w.dim().y << "\nz " << w.dim().z/n << "\nn " << n << "\n";
            if (K->stride != 1) ss << "stride " << K->stride << "\n";
        }else{
            ss << "Connected Layer\nx " << w.dim().x << "\ny " << w.dim().y << "\n";
        }
        ss << "weights\n" << matText(w) << "biases\n" << matText(b);
        if (!L.deserialize(ss)) throw std::runtime_error("not loaded");
        c.known[e["o"].i()] = true;
        return resOf("[]");
    });
    if (op == "fwd") return guarded(c, [&]{
        return resOf(pairOf(c.obj(e).propagateForward(toMat(e["x"], S), e["slot"].i()), sc));
    });
    if (op == "fits") return guarded(c, [&]{
        return resOf(std::string("[") + (c.obj(e).checkSize(toMat(e["x"], S)) ? "1" : "0") + "]");
    });
    if (op == "outdim") return guarded(c, [&]{
        dim3 d = toDim(e["d"]), o;
        if (auto K = dynamic_cast<Kernel*>(&c.obj(e))) o = K->outputSize(DMat(d));
        else if (auto P = dynamic_cast<Pooling*>(&c.obj(e))) o = P->outputSize(d);
        else throw vj::HarnessMistake{"outdim"};
        return resOf(dimText(o));
    });
    if (op == "bwd") return guarded(c, [&]{
        DMat x = toMat(e["x"], S), y = toMat(e["y"], S), g = toMat(e["g"], S);
        DMat r = c.obj(e).propagateBackward(x, y, g, e["slot"].i(), e["first"].i() != 0);
        return resOf(pairOf(r, sc));
    });
    if (op == "gw" || op == "gx" || op == "gb") return guarded(c, [&]{
        ModelLayer& L = c.obj(e);
        DMat g = toMat(e["g"], S), r;
        if (auto K = dynamic_cast<Kernel*>(&L)){
            if (op == "gb") r = K->getdLdB(g);
            else{
                DMat x = toMat(e["x"], S);
                r = op == "gw" ? K->getdLdW(x, g) : K->getdLdX(x, g);
            }
        }else if (auto F = dynamic_cast<ConnectedLayer*>(&L)){
            if (op == "gb") r = F->getdLdB(g);
            else if (op == "gw") r = F->getdLdW(toMat(e["x"], S), g);
            else r = F->getdLdX(g);
        }else throw vj::HarnessMistake{"gradient of what"};
        return resOf(op == "gx" ? "[" + valuesOf(r, sc) + "]" : pairOf(r, sc));
    });
    if (op == "setb") return guarded(c, [&]{c.obj(e).setBatchSize(e["n"].i()); return resOf("[]");});
    if (op == "apply") return guarded(c, [&]{c.obj(e).applyBatch(e["r_"].d()/S); return resOf("[]");});
    if (op == "label") return guarded(c, [&]{
        dynamic_cast<Softmax&>(c.obj(e)).assignTrueLabel((size_t)(long)e["t"].d(), e["slot"].i());
        return resOf("[]");
    });

    // ---- models
    if (op == "net") return guarded(c, [&]{
        Ctx::Net n;
        n.model = std::make_shared<Model>();
        n.first = c.objs.size();
        std::vector<std::string> labels;
        for (auto& s : e["labels"].arr) labels.push_back(s.s());
        Model& M = *n.model;
        for (const vj::Val& l : e["cs"].arr){
            const std::string& k = l["k"].s();
            if (k == "kernel") M.addKernel(toDim(l["fd"]), l["n"].i()).stride = l["s"].i();
            else if (k == "pool") M.addPooling(dim2(l["pd"][0].i(), l["pd"][1].i()), dim2(l["ps"][0].i(), l["ps"][1].i()), poolOf(l["f"].s()));
            else if (k == "fc") M.addConnectedLayer(l["n"].i());
            else if (k == "act" && l.has("probe")) M.layers.push_back(std::make_shared<Probe>());
            else if (k == "act") M.addActivation(actOf(l["f"].s()));
            else if (k == "soft") M.setOutputLabels(labels, SOFTMAX);
            else if (k == "snap"){
                M.layers.push_back(std::make_shared<SnapSoftmax>(labels.size(), l.has("q") ? l["q"].d() : S));
                M.output_labels = labels;
            }
        }
        if (e.has("open")) M.setOutputLabels(labels, UNSPECIFIED_OUTPUT);      // the last layer's output as it is
        Out o;
        for (auto& l : M.layers){
            c.objs.push_back(l);
            c.known.push_back(false);
            o.raw("[" + vj::quote(typeName(l->getType())) + "," + vj::quote(l->name) + "]");
        }
        c.nets.push_back(n);
        return resOf(o.done());
    });
    if (op == "nfwd") return guarded(c, [&]{
        auto& n = c.net(e);
        const int slot = e["slot"].i();
        const std::string t = e.has("t") ? e["t"].s() : "flt";
        Out a;
        ModelResults<std::string> r;
        withType(t, [&](auto v){
            using T = decltype(v);
            SimpleMatrix<double> given = toMat<double>(e["x"], S);
            SimpleMatrix<T> x(given.dim());
            for (size_t i = 0; i < given.size(); i++){
                if (!exactIn(t, given[i])) throw vj::HarnessMistake{"not a value of this type"};
                x[i] = (T)given[i];
            }
            const SimpleMatrix<T> before = x;
            if constexpr (std::is_same_v<T, float>) r = n.model->forwardPropagation(x, slot);
            else r = typed<T>(*n.model).forwardPropagation(x, slot);
            for (auto& m : r.layer_inputs) a.raw(pairOf(m, sc));
            if (x.dim() != before.dim() || !(valuesOf(x, sc) == valuesOf(before, sc))) a.raw("[\"input changed\"]");
        });
        std::string s = "[" + a.done() + "," + std::to_string(r.label_idx) + "," + std::to_string(sc(r.confidence)) + "]";
        n.rs[slot] = r;
        return resOf(s);
    });
    if (op == "nloss" || op == "nbwd") return guarded(c, [&]{
        auto& n = c.net(e);
        const int slot = e["slot"].i();
        auto& r = n.rs[slot];
        if (e.has("lt")){       // the same model with labels that are numbers
            ModelDescription<float, int> M;
            M.layers = n.model->layers;
            for (auto& s : n.model->output_labels) M.output_labels.push_back(std::stoi(s));
            ModelResults<int> ir;
            ir.label_idx = r.label_idx;
            ir.confidence = r.confidence;
            ir.layer_inputs = r.layer_inputs;
            const int lab = std::stoi(e["lab"].s());
            if (op == "nloss") M.assignLoss(ir, lab);
            else M.backwardsPropagation(ir, lab, slot);
            r.true_label = std::to_string(ir.true_label.value_or(-12345));
            r.true_label_idx = ir.true_label_idx;
            r.loss = ir.loss;
        }
        else if (op == "nloss") n.model->assignLoss(r, e["lab"].s());
        else n.model->backwardsPropagation(r, e["lab"].s(), slot);
        return resOf("[" + vj::quote(r.true_label.value_or("?")) + "," + std::to_string(r.true_label_idx) + "," + std::to_string(roundNum(r.loss, 1e4)) + "]");
    });
    if (op == "nsave") return guarded(c, [&]{
        // save the model and go on with it
        char name[] = "modelXXXXXX";
        int fd = mkstemp(name);
        if (fd < 0) throw vj::HarnessMistake{"no scratch file"};
        close(fd);
        std::ostringstream text;
        bool saved;
        {
            auto* old = std::cout.rdbuf(text.rdbuf());
            struct Restore {std::streambuf* b; const char* f; ~Restore(){std::cout.rdbuf(b); unlink(f);}} restore{old, name};
            saved = c.net(e).model->saveModel(name);
        }
        if (!saved) throw std::runtime_error("not saved");
        return resOf("[]");
    });
    if (op == "reload") return guarded(c, [&]{
        // save the model, load it into a new one and go on with that; the test doubles take their places again
        auto& n = c.net(e);
        char name[] = "modelXXXXXX";
        int fd = mkstemp(name);
        if (fd < 0) throw vj::HarnessMistake{"no scratch file"};
        close(fd);
        auto M = std::make_shared<Model>();
        std::ostringstream text;
        bool saved, loaded;
        {
            auto* old = std::cout.rdbuf(text.rdbuf());
            struct Restore {std::streambuf* b; const char* f; ~Restore(){std::cout.rdbuf(b); unlink(f);}} restore{old, name};
            saved = n.model->saveModel(name);
            loaded = M->loadModel(name);
        }
        if (!saved || !loaded) throw std::runtime_error(saved ? "not loaded" : "not saved");
        if (M->layers.size() != n.model->layers.size()) throw std::runtime_error("number of layers");
        if (std::dynamic_pointer_cast<Probe>(n.model->layers.front())) M->layers.front() = std::make_shared<Probe>();
        if (std::dynamic_pointer_cast<SnapSoftmax>(n.model->layers.back())) M->layers.back() = std::make_shared<SnapSoftmax>(M->output_labels.size(), S);
        n.model = M;
        for (size_t i = 0; i < M->layers.size(); i++) c.objs[n.first + i] = M->layers[i];
        Out o;
        for (auto& l : M->output_labels) o.str(l);
        return resOf(o.done());
    });
    if (op == "nsetb") return guarded(c, [&]{for (auto& l : c.net(e).model->layers) l->setBatchSize(e["n"].i()); return resOf("[]");});
    if (op == "napply") return guarded(c, [&]{for (auto& l : c.net(e).model->layers) l->applyBatch(e["r_"].d()/S); return resOf("[]");});
    if (op == "balance") return guarded(c, [&]{
        // choose the biases of the last fully connected layer so that the logits for x are all
        // equal (win < 0), or that of label win leads by 64
        auto& n = c.net(e);
        auto& ls = n.model->layers;
        const int slot = e["slot"].i(), win = e["win"].i();
        DMat a = toMat(e["x"], S);
        for (size_t i = 0; i + 1 < ls.size(); i++) a = ls[i]->propagateForward(std::move(a), slot);
        DMat& b = ls[ls.size()-2]->biases;
        if (a.dim() != b.dim()) throw std::runtime_error("unexpected output shape");
        for (int i = 0; i < b.dim().x; i++) b(i, 0, 0) = b(i, 0, 0) - a(i, 0, 0) + (i == win ? 64 : 0);
        return resOf("[]") + ",\"b\":" + recOf(b, sc);
    });
    if (op == "epoch" || op == "train"){
        auto& n = c.net(e);
        auto watch = std::make_shared<Watch>();
        for (auto& p : e["data"].arr){
            if (p.has("throws")) watch->throwing.insert(watch->points.size());
            watch->points.push_back({toMat<float>(p["x"], S), p["lab"].s()});
        }
        const std::string type = e.has("t") ? e["t"].s() : "flt";
        for (auto& p : watch->points) for (float v : p.data) if (!exactIn(type, v)) throw vj::HarnessMistake{"not a value of this type"};
        return withType(type, [&](auto type_value){
        using T = decltype(type_value);
        ListSource<T> src(watch);
        ModelDescription<T, std::string> model = typed<T>(*n.model);
        typename ModelDescription<T, std::string>::Hyperparameters p;
        int thrown = -1, standard = 0;
        watch->logging = e.has("ev");
        auto snap = std::dynamic_pointer_cast<SnapSoftmax>(n.model->layers.back());
        auto probe = std::dynamic_pointer_cast<Probe>(n.model->layers.front());
        if (!snap && !probe) throw vj::HarnessMistake{"nothing tells about updates"};
        if (snap){
            snap->on_apply = [&]{src.update();};
            snap->watch = watch;
        }else probe->on_apply = [&]{src.update();};
        if (probe) probe->watch = watch;
        std::vector<int> order;
        if (e.has("gate")) for (auto& v : e["gate"].arr) order.push_back(v.i());
        std::vector<std::string> plan;
        if (e.has("plan")) for (auto& v : e["plan"].arr) plan.push_back(v.s());
        watch->gate.start(order, plan);
        std::ostringstream text;
        std::string r = guarded(c, [&]{
            p.learning_rate = e["r_"].d()/S;
            p.batch_size = e["B"].i();
            p.num_threads = e["T"].i();
            p.num_epochs = e["E"].i();
            auto* old = std::cout.rdbuf(text.rdbuf());
            struct Restore {std::streambuf* b; ~Restore(){std::cout.rdbuf(b);}} restore{old};
            try {
                if (op == "train"){
                    model.train(src, p);
                    return resOf("[]");
                }
                if (!e.has("keep")) for (auto& l : n.model->layers) l->setBatchSize(p.batch_size);
                int hits = model.runEpoch(src, p);
                return resOf("[" + std::to_string(hits) + "]");
            }
            catch (SourceFailure& f){thrown = f.point; standard = 1; throw;}
            catch (std::exception&){standard = 1; throw;}
        });
        // training that ends with an exception has done something: it is not refused
        if (r.rfind("\"out\":\"refused\"", 0) == 0) r.replace(7, 7, "failed");
        watch->gate.stop();
        watch->logging = false;
        if (snap){snap->on_apply = nullptr; snap->watch = nullptr;}
        if (probe){probe->on_apply = nullptr; probe->watch = nullptr;}
        // the accuracies that were printed, times 10^4
        Out acc;
        std::istringstream in(text.str());
        for (std::string line; std::getline(in, line);){
            size_t at = line.find("Accuracy was ");
            if (line.rfind("Epoch ", 0) == 0 && at != std::string::npos)
                acc.raw("[" + std::to_string(atoi(line.c_str() + 6)) + "," + std::to_string(roundNum(strtod(line.c_str() + at + 13, nullptr), 1e4)) + "]");
        }
        Out evs;
        for (auto& v : watch->events) evs.raw(v);
        return r + ",\"drawn\":" + src.drawn() + ",\"resets\":" + std::to_string(src.resets) + ",\"overlaps\":" + std::to_string(src.overlaps.load())
             + ",\"thrown\":" + std::to_string(thrown) + ",\"std\":" + std::to_string(standard)
             + ",\"followed\":" + std::to_string(watch->gate.followed) + ",\"acc\":" + acc.done() + ",\"events\":" + evs.done();
        });
    }

    if (op == "bulk") return guarded(c, [&]{
        // one epoch over a source that only counts; the points are all alike
        struct Counting : public DataGenerator<float> {
            int n, taken = 0, since = 0, most = 0, updates = 0, beyond = 0;
            LabeledInput<float> point{SimpleMatrix<float>(dim3(1, 1, 1), 1), "zero"};
            std::atomic<int> inside{0}, overlaps{0};
            struct Call {Counting& s; Call(Counting& s) : s(s) {if (s.inside++) s.overlaps++;} ~Call(){s.inside--;}};
            LabeledInput<float> getNextDataPoint() override {
                Call c(*this);
                if (taken >= n) beyond++; else taken++;
                if (++since > most) most = since;
                return point;
            }
            size_t size() override {Call c(*this); return n;}
            bool hasAvailableData() override {Call c(*this); return taken < n;}
            void reset() override {taken = 0;}
        } src;
        struct Teller : public Softmax {
            Counting& src;
            Teller(Counting& src) : Softmax(1), src(src) {}
            void applyBatch(double) override {src.updates++; src.since = 0;}
        };
        src.n = e["N"].i();
        Model M;
        M.layers.push_back(std::make_shared<Teller>(src));
        M.output_labels = {"zero"};
        Model::Hyperparameters p;
        p.learning_rate = 0;
        p.batch_size = e["B"].i();
        p.num_threads = e["T"].i();
        for (auto& l : M.layers) l->setBatchSize(p.batch_size);
        std::ostringstream text;
        auto* old = std::cout.rdbuf(text.rdbuf());
        struct Restore {std::streambuf* b; ~Restore(){std::cout.rdbuf(b);}} restore{old};
        const int hits = M.runEpoch(src, p);
        return resOf("[" + std::to_string(hits) + "]") + ",\"drawn\":" + std::to_string(src.taken) + ",\"beyond\":" + std::to_string(src.beyond)
             + ",\"most\":" + std::to_string(src.most) + ",\"late\":" + std::to_string(src.since) + ",\"overlaps\":" + std::to_string(src.overlaps.load());
    });

    // ---- results that are logged on a finer scale
    if (op == "avgf") return guarded(c, [&]{return qOf(c.obj(e).propagateForward(toMat(e["x"], S), e["slot"].i()), 1e6/c.unit);});
    if (op == "avgb") return guarded(c, [&]{
        DMat x = toMat(e["x"], S), g = toMat(e["g"], S);
        return qOf(c.obj(e).propagateBackward(x, DMat(), g, e["slot"].i(), false), 1e6/c.unit);
    });
    if (op == "curvef") return guarded(c, [&]{return qOf(c.obj(e).propagateForward(toMat(e["k"], 8), 0), 1e8);});
    if (op == "curveb") return guarded(c, [&]{
        DMat x = toMat(e["k"], 8), g = toMat(e["g"], 1);
        DMat y = c.obj(e).propagateForward(toMat(e["k"], 8), 0);
        return qOf(c.obj(e).propagateBackward(x, y, g, 0, e["first"].i() != 0), 1e8);
    });
    // numbers near the ends of the range of a double, and what becomes of them
    if (op == "ends") return guarded(c, [&]{
        DMat x(toDim(e["d"])), g(x.dim(), 1.0);
        for (size_t i = 0; i < x.size(); i++) x[i] = endOf(e["x"][i].s());
        DMat y = c.obj(e).propagateForward(DMat(x), 0);
        DMat d = c.obj(e).propagateBackward(x, y, g, 0, false);
        Out f, b;
        for (size_t i = 0; i < x.size() && y.size() == x.size() && d.size() == x.size(); i++){
            f.str(kindOf(y[i], x[i]));
            b.str(kindOf(d[i], x[i]));
        }
        return resOf("[]") + ",\"f\":" + f.done() + ",\"b\":" + b.done();
    });
    if (op == "softends") return guarded(c, [&]{
        DMat x(toDim(e["d"]));
        for (size_t i = 0; i < x.size(); i++) x[i] = endOf(e["x"][i].s());
        return qOf(c.obj(e).propagateForward(std::move(x), 0), 1e6);
    });
    if (op == "softc" || op == "softg") return guarded(c, [&]{
        DMat x(toDim(e["d"]));
        const bool row = x.dim().x == 1;
        for (size_t i = 0; i < e["k"].size(); i++){
            double v = op == "softc" ? e["off"].d() + e["k"][i].d()*0.693147180559945309417 : e["off"].d() + e["k"][i].d()/8;
            (row ? x(0, (int)i, 0) : x((int)i, 0, 0)) = v;
        }
        DMat p = c.obj(e).propagateForward(std::move(x), e["slot"].i());
        for (double v : p) if (!std::isfinite(v) || v < 0) return resOf("[]") + ",\"q\":{\"d\":" + dimText(p.dim()) + ",\"v\":[" + std::to_string(BAD) + "]}";
        return qOf(p, op == "softc" ? e["Q"].d() : 1e4);
    });
    if (op == "lossc") return guarded(c, [&]{
        auto& n = c.net(e);
        const int len = e["n"].i(), at = e["at"].i();
        DMat p(dim3(len, 1, 1));
        for (int i = 0; i < len; i++) p(i, 0, 0) = 1.0/(3*len);
        p(at, 0, 0) = e["q"].i() == 0 ? 0.0 : 1.0/e["q"].i();
        return "\"q\":" + std::to_string(roundNum(n.model->lossFcn(p, at), 1e4));
    });

    // ---- first use
    if (op == "finit" || op == "kinit") return guarded(c, [&]{
        ModelLayer& L = c.obj(e);
        Out outs;
        if (op == "finit"){
            const size_t T = e["hots"].size();
            const dim3 d = toDim(e["d"]);
            std::vector<DMat> got(T);
            std::vector<std::string> err(T);
            auto one = [&](size_t i){
                try {
                    DMat x(d);
                    int h = e["hots"][i].i();
                    if (h >= 0) x(h % d.x, (h/d.x) % d.y, h/(d.x*d.y)) = 1;      // otherwise all zero, or empty
                    got[i] = L.propagateForward(std::move(x), 0);
                }catch (std::exception& ex){err[i] = ex.what();}
            };
            if (e["conc"].i()){
                std::atomic<int> waiting{0};
                std::vector<std::thread> ts;
                for (size_t i = 0; i < T; i++) ts.emplace_back([&, i]{
                    waiting++;
                    while (waiting.load() < (int)T) std::this_thread::yield();
                    one(i);
                });
                for (auto& t : ts) t.join();
            }else for (size_t i = 0; i < T; i++) one(i);
            for (auto& s : err) if (!s.empty()) throw std::runtime_error(s);
            for (auto& m : got) outs.raw(recOf(m, [](double x){return roundNum(x, 1e8);}));
        }
        double ssw = 0, ssb = 0;
        for (double v : L.weights) ssw += v*v;
        for (double v : L.biases) ssb += v*v;
        auto q = [](double x){return roundNum(x, 1e8);};
        return "\"w\":" + recOf(L.weights, q) + ",\"b\":" + recOf(L.biases, q) + ",\"ssw\":" + std::to_string(roundNum(ssw, 1e6))
             + ",\"ssb\":" + std::to_string(roundNum(ssb, 1e6)) + ",\"outs\":" + outs.done();
    });
    if (op == "actname") return guarded(c, [&]{
        std::string s = toString((ModelActivationFunction)e["i"].i());
        return resOf("[" + vj::quote(s) + "," + std::to_string((int)fromString(s)) + "]");
    });
    if (op == "actbad") return guarded(c, [&]{
        if (e.has("s")) return resOf("[" + std::to_string((int)fromString(e["s"].s())) + "]");
        return resOf("[" + vj::quote(toString((ModelActivationFunction)e["i"].i())) + "]");
    });
    throw vj::HarnessMistake{"unknown op " + op};
}

int main(int argc, char** argv){
    return runDriver(argc, argv, []{
        auto c = std::make_shared<Ctx>();
        return Handler([c](const vj::Val& e){return handle(*c, e);});
    });
}
