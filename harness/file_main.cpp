// Driver of model files and matrix streams: the operations of spec/TraceFile.tla on the real code.
#include "net.h"
#include <dirent.h>
#include <sys/stat.h>

static std::string six(double x){
    char b[400];
    snprintf(b, sizeof b, "%.6f", x);
    return !strcmp(b, "-0.000000") ? "0.000000" : b;
}
static std::string six(float x){return six((double)x);}
static std::string six(int x){return std::to_string(x) + ".000000";}
// Row by row, layer by layer
template<typename M> std::string textPair(const M& m){
    Out v;
    const dim3 d = m.dim();
    for (int z = 0; z < d.z; z++) for (int x = 0; x < d.x; x++) for (int y = 0; y < d.y; y++) v.str(six(m(x, y, z)));
    return "[" + dimText(d) + "," + v.done() + "]";
}
template<typename T> SimpleMatrix<T> fromText(const vj::Val& m){
    const dim3 d = toDim(m["d"]);
    SimpleMatrix<T> out(d);
    size_t k = 0;
    for (int z = 0; z < d.z; z++) for (int x = 0; x < d.x; x++) for (int y = 0; y < d.y; y++)
        out(x, y, z) = static_cast<T>(strtod((m.has("x") ? m["x"] : m["v"])[k++].s().c_str(), nullptr));
    return out;
}
static std::string slurp(const std::string& p){
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
static void spit(const std::string& p, const std::string& text){
    std::ofstream f(p, std::ios::binary);
    f.write(text.data(), text.size());
    f.close();
    if (!f) throw vj::HarnessMistake{"cannot write " + p};
}
static std::string hashText(const std::string& s){
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s){h ^= c; h *= 1099511628211ull;}
    char b[40];
    snprintf(b, sizeof b, "%zu-%016llx", s.size(), (unsigned long long)h);
    return b;
}
struct Quiet {           // the library reports on the terminal
    std::ostringstream text;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(text.rdbuf())) {}
    ~Quiet(){std::cout.rdbuf(old);}
};

struct Ctx {
    std::string dir;
    std::vector<std::shared_ptr<Model>> models;
    std::map<std::string, std::string> texts;
    Ctx(){
        char b[] = "filesXXXXXX";
        if (!mkdtemp(b)) throw vj::HarnessMistake{"no scratch directory"};
        dir = b;
    }
    ~Ctx(){
        if (DIR* d = opendir(dir.c_str())){
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.'){
                unlink((dir + "/" + e->d_name).c_str());
                rmdir((dir + "/" + e->d_name).c_str());
            }
            closedir(d);
        }
        rmdir(dir.c_str());
    }
    Model& model(const vj::Val& e, const char* k = "m"){
        size_t m = e[k].i();
        if (m >= models.size()) throw vj::HarnessMistake{"no such model"};
        return *models[m];
    }
    std::string path(const std::string& f){return dir + "/" + f;}
};

static std::string seen(Model& M){
    Out o;
    for (auto& L : M.layers){
        std::string conf = "[0,0]";
        if (auto K = dynamic_cast<Kernel*>(L.get())) conf = "[" + std::to_string((int)K->num_filters) + "," + std::to_string((int)K->stride) + "]";
        o.raw("[" + vj::quote(typeName(L->getType())) + "," + vj::quote(L->name) + "," + textPair(L->weights) + "," + textPair(L->biases) + "," + conf + "]");
    }
    Out ls;
    for (auto& s : M.output_labels) ls.str(s);
    return "\"seen\":" + o.done() + ",\"labels\":" + ls.done();
}
template<typename F> std::string guarded(F f){
    try {return "\"out\":\"ok\"," + f();}
    catch (vj::HarnessMistake&){throw;}
    catch (std::exception& e){return "\"out\":\"thrown\",\"what\":" + vj::quote(e.what());}
    catch (...){return "\"out\":\"thrown\",\"what\":\"?\"";}
}
static std::string yes(bool b){return b ? "true" : "false";}
static std::string hexNum(double x){char b[64]; snprintf(b, sizeof b, "%a", x); return b;}
static std::string answers(Model& M, const vj::Val& xs){
    Out o;
    for (auto& x : xs.arr){
        if (M.layers.empty() || M.layers.back()->getType() != OUTPUT){      // not a classifier
            DMat a = toMat(x, 64);
            for (auto& L : M.layers) a = L->propagateForward(std::move(a), 0);
            Out v;
            v.raw(dimText(a.dim()));
            for (double y : a) v.str(hexNum(y));
            o.raw(v.done());
            continue;
        }
        auto r = M.forwardPropagation(toMat<float>(x, 64), 0);
        Out v;
        v.num(r.label_idx);
        v.str(hexNum(r.confidence));
        for (auto& m : r.layer_inputs){
            v.raw(dimText(m.dim()));
            for (double y : m) v.str(hexNum(y));
        }
        o.raw(v.done());
    }
    return o.done();
}
static bool loadAs(Model& M, const std::string& p, const std::string& t);
static int tryLoad(Ctx& c, const std::string& text, std::string& thrown, const std::string& lt = "str"){
    const std::string p = c.path("try");
    spit(p, text);
    Model M;
    try {return loadAs(M, p, lt);}
    catch (std::exception& e){thrown = e.what(); if (thrown.empty()) thrown = "?";}
    catch (...){thrown = "?";}
    return 0;
}

template<typename T> struct StreamOne {
    static void write(std::ostream& os, const vj::Val& m, Out& orig){
        SimpleMatrix<T> M = fromText<T>(m);
        orig.raw(textPair(M));
        M.serialize(os);
    }
    static void read(std::istream& is, const vj::Val& m, Out& oks, Out& back){
        SimpleMatrix<T> M(toDim(m["pre"]), T(7));       // what was there before
        oks.raw(yes(M.deserialize(is)));
        back.raw(textPair(M));
    }
    static std::string text(std::istream& is, const vj::Val& pre){
        SimpleMatrix<T> M(toDim(pre), T(7));
        bool ok = M.deserialize(is);
        return "\"ok\":" + yes(ok) + ",\"back\":" + (ok ? textPair(M) : "[]");
    }
};

// Saving and loading by a model with labels of another type, which shares its layers with the model
template<typename L> struct Labels {
    static L from(const std::string& s){
        std::istringstream in(s);
        L l;
        if (!(in >> l)) throw vj::HarnessMistake{"not a label of this type"};
        return l;
    }
    static std::string to(const L& l){std::ostringstream o; o << l; return o.str();}
    static bool save(Model& M, const std::string& p){
        ModelDescription<float, L> m;
        m.layers = M.layers;
        for (auto& s : M.output_labels) m.output_labels.push_back(from(s));
        return m.saveModel(p);
    }
    static bool load(Model& M, const std::string& p){
        ModelDescription<float, L> m;
        bool ok = m.loadModel(p);
        M.layers = m.layers;
        for (auto& l : m.output_labels) M.output_labels.push_back(to(l));
        return ok;
    }
};
static bool saveAs(Model& M, const std::string& p, const std::string& t){
    if (t == "str") return M.saveModel(p);
    if (t == "int") return Labels<int>::save(M, p);
    if (t == "size") return Labels<size_t>::save(M, p);
    if (t == "char") return Labels<char>::save(M, p);
    if (t == "dbl") return Labels<double>::save(M, p);
    throw vj::HarnessMistake{"label type " + t};
}
static bool loadAs(Model& M, const std::string& p, const std::string& t){
    if (t == "str") return M.loadModel(p);
    if (t == "int") return Labels<int>::load(M, p);
    if (t == "size") return Labels<size_t>::load(M, p);
    if (t == "char") return Labels<char>::load(M, p);
    if (t == "dbl") return Labels<double>::load(M, p);
    throw vj::HarnessMistake{"label type " + t};
}
static std::string labelType(const vj::Val& e){return e.has("lt") ? e["lt"].s() : "str";}

static std::string handle(Ctx& c, const vj::Val& e){
    const std::string& op = e["op"].s();
    if (op == "reset") return "\"out\":\"ok\"";
    if (op == "build") return guarded([&]{
        auto M = std::make_shared<Model>();
        std::vector<std::string> labels;
        for (auto& s : e["labels"].arr) labels.push_back(s.s());
        size_t i = 0;
        bool soft = false;
        for (const vj::Val& l : e["ls"].arr){
            const std::string& k = l["k"].s();
            if (k == "kernel") M->addKernel(toDim(l["fd"]), l["n"].i()).stride = l["s"].i();
            else if (k == "pool"){
                const std::string& f = l["f"].s();
                M->addPooling(dim2(l["pd"][0].i(), l["pd"][1].i()), dim2(l["ps"][0].i(), l["ps"][1].i()), f == "MAX" ? MAX : f == "MIN" ? MIN : AVG);
            }
            else if (k == "fc") M->addConnectedLayer(l["n"].i());
            else if (k == "act") M->addActivation(actOf(l["f"].s()));
            else if (k == "soft"){M->setOutputLabels(labels, SOFTMAX); soft = true;}
            if (e["given"][i].i() && (k == "kernel" || k == "fc")){
                ModelLayer& L = *M->layers.back();
                // a fully connected layer takes its shape from its first input
                if (k == "fc") L.propagateForward(DMat(dim3(l["w"]["d"][1].i(), 1, 1)));
                L.weights = fromText<double>(l["w"]);
                L.biases  = fromText<double>(l["b"]);
            }
            i++;
        }
        if (!soft) M->output_labels = labels;
        c.models.push_back(M);
        return seen(*M);
    });
    if (op == "use") return guarded([&]{
        Quiet q;
        answers(c.model(e), e["xs"]);
        return seen(c.model(e));
    });
    if (op == "train") return guarded([&]{
        Quiet q;
        Model& M = c.model(e);
        auto watch = std::make_shared<Watch>();
        ListSource<float> src(watch);
        for (auto& p : e["data"].arr) watch->points.push_back({toMat<float>(p["x"], 64), p["lab"].s()});
        Model::Hyperparameters p;
        p.learning_rate = e["rate"].d()/1000;
        p.batch_size = e["B"].i();
        p.num_threads = e["T"].i();
        p.num_epochs = 1;
        M.train(src, p);
        return seen(M);
    });
    if (op == "twins") return guarded([&]{
        // the same epoch with one thread on both
        Quiet q;
        std::string rs[2];
        for (int i = 0; i < 2; i++){
            Model& M = c.model(e, i ? "b" : "a");
            auto watch = std::make_shared<Watch>();
            ListSource<float> src(watch);
            for (auto& p : e["data"].arr) watch->points.push_back({toMat<float>(p["x"], 64), p["lab"].s()});
            Model::Hyperparameters p;
            p.learning_rate = e["rate"].d()/1000;
            p.batch_size = e["B"].i();
            p.num_threads = 1;
            p.num_epochs = 1;
            for (auto& l : M.layers) l->setBatchSize(p.batch_size);
            Out o;
            o.num(M.runEpoch(src, p));
            for (auto& L : M.layers){
                for (double w : L->weights) o.str(hexNum(w));
                for (double b : L->biases) o.str(hexNum(b));
            }
            o.raw(answers(M, e["xs"]));
            rs[i] = o.done();
        }
        return "\"ra\":" + rs[0] + ",\"rb\":" + rs[1] + "," + seen(c.model(e, "a"));
    });
    if (op == "save") return guarded([&]{
        Quiet q;
        const std::string p = c.path(e["f"].s());
        bool ok = saveAs(c.model(e), p, labelType(e));
        std::string text = slurp(p);
        c.texts[e["f"].s()] = text;
        size_t end = text.find_last_not_of(" \n\t");
        return "\"ok\":" + yes(ok) + ",\"tx\":" + vj::quote(hashText(text)) + ",\"need\":" + std::to_string(end == std::string::npos ? 0 : (long)end + 1) + "," + seen(c.model(e));
    });
    if (op == "savefail") return guarded([&]{
        Quiet q;
        const std::string how = e["how"].s();
        std::string p = how == "nodir" ? c.path("no/such/dir/model.txt") : how == "isdir" ? c.dir : "/dev/full";
        return "\"ok\":" + yes(c.model(e).saveModel(p));
    });
    if (op == "put") return guarded([&]{
        spit(c.path(e["f"].s()), e["text"].s());
        c.texts[e["f"].s()] = e["text"].s();
        return std::string("\"ok\":true");
    });
    if (op == "load") return guarded([&]{
        Quiet q;
        auto M = std::make_shared<Model>();
        std::string p = c.path(e["f"].s());
        if (e.has("isdir")) mkdir(p.c_str(), 0700);
        bool ok = loadAs(*M, p, labelType(e));
        c.models.push_back(M);
        return "\"ok\":" + yes(ok) + "," + seen(*M);
    });
    if (op == "cuts" || op == "damage") return guarded([&]{
        Quiet q;
        Out ks, oks;
        std::string thrown;
        if (op == "cuts"){
            const std::string& text = c.texts[e["f"].s()];
            const size_t step = e["step"].i();
            for (size_t k = 0; k <= text.size(); k += (k + 40 < text.size() && k > 40 ? step : 1)){
                ks.num(k);
                oks.raw(yes(tryLoad(c, text.substr(0, k), thrown, labelType(e))));
            }
        }else for (auto& t : e["texts"].arr){
            if (t.has("text")){oks.raw(yes(tryLoad(c, t["text"].s(), thrown))); continue;}
            // one line replaced or left out
            std::istringstream in(c.texts[e["f"].s()]);
            std::string text, line;
            for (int n = 1; std::getline(in, line); n++){
                if (n != t["at"].i()) text += line + "\n";
                else for (auto& s : t["new"].arr) text += s.s() + "\n";
            }
            oks.raw(yes(tryLoad(c, text, thrown)));
        }
        if (!thrown.empty()) throw std::runtime_error("loadModel: " + thrown);
        return "\"ks\":" + ks.done() + ",\"oks\":" + oks.done();
    });
    if (op == "same") return guarded([&]{
        Quiet q;
        std::string a = answers(c.model(e, "a"), e["xs"]), b = answers(c.model(e, "b"), e["xs"]);
        return "\"ra\":" + a + ",\"rb\":" + b;
    });
    if (op == "stream") return guarded([&]{
        std::stringstream os;
        Out orig, oks, back, words, fmt;
        for (auto& m : e["ms"].arr){
            const std::string& t = m["t"].s();
            if (t == "int") StreamOne<int>::write(os, m, orig);
            else if (t == "flt") StreamOne<float>::write(os, m, orig);
            else StreamOne<double>::write(os, m, orig);
            os << m["word"].s() << "\n";
        }
        os << 1234567.5 << " " << 0.1 << " " << 1e-7;
        std::istringstream is(os.str());
        for (auto& m : e["ms"].arr){
            const std::string& t = m["t"].s();
            if (t == "int") StreamOne<int>::read(is, m, oks, back);
            else if (t == "flt") StreamOne<float>::read(is, m, oks, back);
            else StreamOne<double>::read(is, m, oks, back);
            std::string w;
            std::getline(is, w);
            words.str(w);
        }
        for (int i = 0; i < 3; i++){
            std::string w;
            is >> w;
            fmt.str(w);
        }
        return "\"orig\":" + orig.done() + ",\"oks\":" + oks.done() + ",\"back\":" + back.done() + ",\"words\":" + words.done() + ",\"fmt\":" + fmt.done();
    });
    if (op == "readtext") return guarded([&]{
        std::istringstream is(e["text"].s());
        const std::string& t = e["t"].s();
        if (t == "int") return StreamOne<int>::text(is, e["pre"]);
        if (t == "flt") return StreamOne<float>::text(is, e["pre"]);
        return StreamOne<double>::text(is, e["pre"]);
    });
    throw vj::HarnessMistake{"unknown op " + op};
}

int main(int argc, char** argv){
    return runDriver(argc, argv, []{
        auto c = std::make_shared<Ctx>();
        return Handler([c](const vj::Val& e){return handle(*c, e);});
    });
}
