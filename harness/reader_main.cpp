// Driver of the image reader, the program's data source and its validation: the operations of
// spec/Reader.tla, and "validate" of spec/TraceNetwork.tla. The program's source is included, with
// its main renamed and its data directory chosen at run time.
#define main net_driver_main
#include "net_main.cpp"
#undef main
#include <sys/stat.h>
static std::string g_data_dir = getenv("READER_DATA") ? getenv("READER_DATA") : ".";
#define DATA_DIR g_data_dir
#define main program_main
#include "main.cpp"
#undef main

// Random numbers of the whole range, the ends of it often
static std::atomic<unsigned> g_random{1}, g_extremes{0};
extern "C" int rand() noexcept {
    unsigned x = g_random.load();
    while (!g_random.compare_exchange_weak(x, x*1103515245u + 12345u));
    const unsigned k = g_extremes.load();
    if (k && x/65536 % k == 0) return RAND_MAX;
    if (k && x/65536 % k == 1) return 0;
    return (x ^ x >> 13) % ((unsigned)RAND_MAX + 1u);
}

// Collects what is printed and tells when the accuracy has been
class Listener : public std::streambuf {
    std::mutex m;
public:
    std::string text;
    std::atomic<bool> reported{false};
    int overflow(int ch) override {
        std::lock_guard<std::mutex> l(m);
        text += (char)ch;
        look();
        return ch;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        std::lock_guard<std::mutex> l(m);
        text.append(s, n);
        look();
        return n;
    }
    void look(){if (!reported && text.find("accuracy was") != std::string::npos) reported = true;}
};
struct Listening {
    Listener l; std::streambuf* old;
    Listening() : old(std::cout.rdbuf(&l)) {}
    ~Listening(){std::cout.rdbuf(old);}
};

static void put32(std::string& s, uint32_t v){for (int i = 3; i >= 0; i--) s += (char)(v >> (8*i) & 255);}
static void writeFile(const std::string& p, const std::string& text){
    std::ofstream f(p, std::ios::binary);
    f.write(text.data(), text.size());
    f.close();
    if (!f) throw vj::HarnessMistake{"cannot write " + p};
}
// tweak: what is wrong with the files
static void writeImages(const std::string& ip, const std::string& lp, const vj::Val& e, const std::string& tweak = ""){
    const int h = e["h"].i(), w = e["w"].i();
    const int n = e["imgs"].size();
    std::string im, la;
    put32(im, tweak == "imagic" ? 2049 : tweak == "imagic0" ? 0x03080000 : 2051);
    put32(im, e.has("count") ? e["count"].i() : n + (tweak == "icount" ? 1 : 0));
    put32(im, e.has("hh") ? e["hh"].i() : h);
    put32(im, e.has("hw") ? e["hw"].i() : w);
    put32(la, tweak == "lmagic" ? 2051 : tweak == "lmagic0" ? 0x01080000 : 2049);
    put32(la, e.has("count") ? e["count"].i() : n + (tweak == "lcount" ? 1 : tweak == "lcount2" ? -1 : 0));
    for (auto& i : e["imgs"].arr){
        for (auto& p : i["p"].arr) im += (char)p.i();
        la += (char)i["l"].i();
    }
    if (e.has("ilen")) im.resize(std::min<size_t>(im.size(), e["ilen"].i()));
    if (e.has("llen")) la.resize(std::min<size_t>(la.size(), e["llen"].i()));
    writeFile(ip, im);
    writeFile(lp, la);
}
// Pixels row by row as the byte they came from, BAD if they are no (v-128)/255
static int byteOf(float x){
    double v = (double)x*255 + 128;
    long n = std::lround(v);
    return std::fabs((double)x - (n - 128)/255.0) < 1e-6 && n >= 0 && n <= 255 ? (int)n : BAD;
}
static std::string pixels(const SimpleMatrix<float>& m){
    Out o;
    for (int z = 0; z < m.dim().z; z++) for (int x = 0; x < m.dim().x; x++) for (int y = 0; y < m.dim().y; y++) o.num(byteOf(m(x, y, z)));
    return o.done();
}

// Records the images that enter the model
class ValProbe : public Activation {
public:
    std::mutex m; std::vector<std::vector<int>> known; std::vector<int> entered; std::atomic<bool>* done = nullptr;
    ValProbe() : Activation(LINEAR) {}
    DMat propagateForward(DMat&& in, size_t slot) override {
        if (done && !done->load()){
            std::vector<int> v;
            for (int x = 0; x < in.dim().x; x++) for (int y = 0; y < in.dim().y; y++) v.push_back(byteOf((float)in(x, y, 0)));
            int at = 0;
            for (size_t i = 0; i < known.size(); i++) if (known[i] == v) at = i + 1;
            std::lock_guard<std::mutex> l(m);
            entered.push_back(at);
        }
        return Activation::propagateForward(std::move(in), slot);
    }
};

struct RCtx {
    Ctx net;
    std::string dir;
    std::unique_ptr<MNISTReader> db;
    std::unique_ptr<MNistGenerator> src;
    RCtx(){
        char b[] = "readXXXXXX";
        if (!mkdtemp(b)) throw vj::HarnessMistake{"no scratch directory"};
        dir = b;
    }
    ~RCtx(){
        db.reset(); src.reset();
        for (const char* f : {"i", "l", "si", "sl", "MNIST Test Images.ubyte-img", "MNIST Test Labels.ubyte-label"}) unlink((dir + "/" + f).c_str());
        rmdir(dir.c_str());
    }
    std::string p(const char* f){return dir + "/" + f;}
};
static std::string where(RCtx& c){
    std::string s;
    if (c.db) s += ",\"n\":" + std::to_string(c.db->numImages()) + ",\"idx\":" + std::to_string(c.db->imageIndex());
    if (c.src) s += std::string(",\"has\":") + (c.src->hasAvailableData() ? "true" : "false") + ",\"size\":" + std::to_string(c.src->size());
    return s;
}
template<typename F> std::string attempt(RCtx& c, F f){
    std::string r;
    try {r = "\"out\":\"ok\"" + f();}
    catch (vj::HarnessMistake&){throw;}
    catch (std::exception& e){r = "\"out\":\"refused\",\"res\":[],\"what\":" + vj::quote(e.what());}
    return r + where(c);
}

static std::string rhandle(RCtx& c, const vj::Val& e){
    const std::string& op = e["op"].s();
    if (op == "reset" && !e.has("S")) return "\"out\":\"ok\"";
    if (op == "open") return attempt(c, [&]{
        Listening q;
        writeImages(c.p("i"), c.p("l"), e);
        c.db = std::make_unique<MNISTReader>(c.p("i"), c.p("l"));
        return std::string();
    });
    if (op == "get" || op == "next") return attempt(c, [&]{
        Image m = op == "get" ? c.db->getImage((size_t)e["i"].i() + (e.has("add") ? strtoull(e["add"].s().c_str(), nullptr, 10) : 0)) : c.db->nextImage();
        return ",\"res\":[{\"d\":" + dimText(m.data.dim()) + ",\"p\":" + pixels(m.data) + ",\"l\":" + std::to_string((int)m.label) + "}]";
    });
    if (op == "bad"){
        writeImages(c.p("i"), c.p("l"), e, e["what"].s());
        // whatever stops the program will do
        pid_t pid = fork();
        if (pid < 0) throw vj::HarnessMistake{"fork"};
        if (pid == 0){
            if (!freopen("/dev/null", "w", stderr)) _exit(0);
            Listening q;
            try {MNISTReader db(c.p("i"), c.p("l"));}
            catch (...){_exit(1);}
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        return "\"out\":\"ok\",\"accepted\":" + std::to_string(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    }
    // files that do not hold what their headers say: what of them is delivered?
    if (op == "short"){
        writeImages(c.p("i"), c.p("l"), e);
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) throw vj::HarnessMistake{"fork"};
        if (pid == 0){
            if (!freopen("/dev/null", "w", stderr)) _exit(0);
            Out o;
            {
                Listening q;
                std::unique_ptr<MNISTReader> db;
                try {db = std::make_unique<MNISTReader>(c.p("i"), c.p("l"));}
                catch (...){_exit(1);}
                for (auto& k : e["ask"].arr){
                    try {
                        Image m = k.i() < 0 ? db->nextImage() : db->getImage(k.i());
                        o.raw("{\"k\":1,\"p\":" + pixels(m.data) + ",\"l\":" + std::to_string((int)m.label) + "}");
                    }catch (std::exception&){o.raw("{\"k\":0}");}
                }
            }
            writeFile(c.p("si"), o.done());
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        const bool acc = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        // an assertion or an exception is a refusal, anything else is not
        const bool clean = acc || (WIFEXITED(st) && WEXITSTATUS(st) == 1) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
        std::string got = "[]";
        if (acc){
            std::ifstream f(c.p("si"));
            std::stringstream ss;
            ss << f.rdbuf();
            got = ss.str();
        }
        return "\"out\":\"ok\",\"accepted\":" + std::to_string(acc) + ",\"clean\":" + std::to_string(clean) + ",\"got\":" + got;
    }
    if (op == "sparse") return attempt(c, [&]{
        Listening q;
        const int h = e["h"].i(), w = e["w"].i();
        const int n = e["n"].i();
        std::string im, la;
        put32(im, 2051); put32(im, n); put32(im, h); put32(im, w);
        put32(la, 2049); put32(la, n);
        for (auto& l : e["labels"].arr) la += (char)l.i();
        writeFile(c.p("l"), la);
        FILE* f = fopen(c.p("i").c_str(), "wb");
        if (!f) throw vj::HarnessMistake{"cannot write"};
        fwrite(im.data(), 1, im.size(), f);
        for (int i = 0; i < n; i++) for (auto& p : e["pix"][i].arr){
            fseeko(f, 16 + (off_t)i*h*w + p[0].i() - 1, SEEK_SET);
            fputc(p[1].i(), f);
        }
        fflush(f);
        if (ftruncate(fileno(f), 16 + (off_t)n*h*w)) throw vj::HarnessMistake{"truncate"};
        fclose(f);
        Out o;
        {
            MNISTReader db(c.p("i"), c.p("l"));
            for (auto& a : e["ask"].arr){
                Image m = db.getImage(a.i());
                Out px;
                for (int x = 0; x < m.data.dim().x; x++) for (int y = 0; y < m.data.dim().y; y++){
                    int v = byteOf(m.data(x, y, 0));
                    if (v != 0 && px.s.size() < 2000) px.raw("[" + std::to_string(x*w + y + 1) + "," + std::to_string(v) + "]");
                }
                o.raw("{\"p\":" + px.done() + ",\"l\":" + std::to_string((int)m.label) + "}");
            }
        }
        unlink(c.p("i").c_str());
        return ",\"got\":" + o.done();
    });
    if (op == "source") return attempt(c, [&]{
        Listening q;
        writeImages(c.p("si"), c.p("sl"), e);
        c.src = std::make_unique<MNistGenerator>(c.p("si"), c.p("sl"));
        return std::string();
    });
    if (op == "sreset") return attempt(c, [&]{c.src->reset(); return std::string();});
    if (op == "spoint") return attempt(c, [&]{
        auto d = c.src->getNextDataPoint();
        return ",\"res\":[{\"d\":" + dimText(d.data.dim()) + ",\"p\":" + pixels(d.data) + ",\"l\":" + vj::quote(d.label) + "}]";
    });
    if (op == "validate"){
        auto& n = c.net.net(e);
        writeImages(c.p("MNIST Test Images.ubyte-img"), c.p("MNIST Test Labels.ubyte-label"), e);
        g_data_dir = c.dir;
        auto probe = std::make_shared<ValProbe>();
        for (auto& i : e["imgs"].arr){
            std::vector<int> v;
            for (auto& p : i["p"].arr) v.push_back(p.i());
            probe->known.push_back(v);
        }
        Listening q;
        if (e["probe"].i()){
            probe->done = &q.l.reported;
            n.model->layers.insert(n.model->layers.begin(), probe);
        }
        std::string r = guarded(c.net, [&]{
            Model::Hyperparameters p;
            p.num_threads = e["T"].i();
            struct Extremes {Extremes(){g_extremes = 4;} ~Extremes(){g_extremes = 0;}} extremes;
            validate(*n.model, p);
            return resOf("[]");
        });
        if (e["probe"].i()) n.model->layers.erase(n.model->layers.begin());
        long acc = -1;
        size_t at = q.l.text.find("alidation accuracy was ");
        if (at != std::string::npos) acc = roundNum(strtod(q.l.text.c_str() + at + 23, nullptr), 1e4);
        // the samples: what is said to be predicted, and what it actually is
        Out samples;
        const std::string says = "This image is a ", but = " (actual label ";
        for (size_t k = 0; (k = q.l.text.find(says, k)) != std::string::npos;){
            const size_t eol = q.l.text.find('\n', k), mid = q.l.text.rfind(but, eol), idx = q.l.text.find("Label Index: ", k);
            Out one;
            if (eol == std::string::npos || mid == std::string::npos || mid < k + says.size() || idx == std::string::npos) one.str("unreadable");
            else {
                one.str(q.l.text.substr(k + says.size(), mid - k - says.size()));
                one.str(q.l.text.substr(mid + but.size(), eol - mid - but.size() - 1));
                one.str(std::to_string(atoi(q.l.text.c_str() + idx + 13)));
            }
            samples.raw(one.done());
            k += says.size();
        }
        Out en;
        std::vector<int> counts(e["imgs"].size() + 1);
        for (int i : probe->entered) counts[i]++;
        for (int i : counts) en.num(i);
        return r + ",\"acc\":" + std::to_string(acc) + ",\"entered\":" + en.done() + ",\"samples\":" + samples.done();
    }
    return handle(c.net, e);
}

int main(int argc, char** argv){
    if (argc > 1 && std::string(argv[1]) == "--program"){      // the training program itself
        return program_main(argc - 1, argv + 1);
    }
    return runDriver(argc, argv, []{
        auto c = std::make_shared<RCtx>();
        return Handler([c](const vj::Val& e){return rhandle(*c, e);});
    });
}
