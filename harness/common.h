// Shared by all drivers: a small JSON reader, a JSON writer and the case runner.
//
// A driver is run as   driver PROGRAM.ndjson RESULT.ndjson
// PROGRAM has one operation per line; a line with "op":"reset" starts a new case. The driver
// carries out the operations on the real library and writes one result object per line. A case
// that crashes or hangs gets a last result {"i":line,"crash":"..."} and the next case goes on in
// a new process.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

namespace vj {

// Mistakes of the harness itself; not a std::exception, so that it is never taken for the library's
struct HarnessMistake {std::string what;};

struct Val {
    enum Kind {NUL, BOOL, NUM, STR, ARR, OBJ} kind = NUL;
    double num = 0;
    std::string str;
    std::vector<Val> arr;
    std::map<std::string, Val> obj;

    const Val& operator[](const std::string& k) const {
        auto it = obj.find(k);
        if (it == obj.end()) throw HarnessMistake{"missing field " + k};
        return it->second;
    }
    const Val& operator[](const char* k) const {return (*this)[std::string(k)];}
    const Val& operator[](size_t i) const {if (i >= arr.size()) throw HarnessMistake{"short array"}; return arr[i];}
    const Val& operator[](int i) const {return (*this)[(size_t)i];}
    bool has(const std::string& k) const {return obj.count(k) > 0;}
    int i() const {return (int)num;}
    double d() const {return num;}
    const std::string& s() const {return str;}
    size_t size() const {return arr.size();}
};

struct Parser {
    const char* p;
    void ws(){while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;}
    Val parse(){
        ws();
        Val v;
        if (*p == '{'){
            v.kind = Val::OBJ; p++; ws();
            if (*p == '}'){p++; return v;}
            while (true){
                ws(); std::string k = string(); ws(); need(':');
                v.obj.emplace(k, parse()); ws();
                if (*p == ','){p++; continue;}
                need('}'); return v;
            }
        }
        if (*p == '['){
            v.kind = Val::ARR; p++; ws();
            if (*p == ']'){p++; return v;}
            while (true){
                v.arr.push_back(parse()); ws();
                if (*p == ','){p++; continue;}
                need(']'); return v;
            }
        }
        if (*p == '"'){v.kind = Val::STR; v.str = string(); return v;}
        if (!strncmp(p, "true", 4)){v.kind = Val::BOOL; v.num = 1; p += 4; return v;}
        if (!strncmp(p, "false", 5)){v.kind = Val::BOOL; p += 5; return v;}
        if (!strncmp(p, "null", 4)){p += 4; return v;}
        char* e; v.kind = Val::NUM; v.num = strtod(p, &e);
        if (e == p) throw HarnessMistake{"bad json"};
        p = e; return v;
    }
    void need(char c){if (*p != c) throw HarnessMistake{std::string("bad json, want ") + c}; p++;}
    std::string string(){
        need('"'); std::string s;
        while (*p && *p != '"'){
            if (*p == '\\'){
                p++;
                if (*p == 'n') s += '\n';
                else if (*p == 't') s += '\t';
                else if (*p == 'r') s += '\r';
                else if (*p == 'u'){unsigned c = strtoul(std::string(p+1, 4).c_str(), 0, 16); s += (char)c; p += 4;}
                else s += *p;
                p++;
            }else s += *p++;
        }
        need('"'); return s;
    }
};
inline Val parse(const std::string& s){Parser p{s.c_str()}; return p.parse();}

inline std::string quote(const std::string& s){
    std::string o = "\"";
    for (unsigned char c : s){
        if (c == '"' || c == '\\'){o += '\\'; o += c;}
        else if (c < 32 || c > 126){char b[8]; snprintf(b, 8, "\\u%04x", c); o += b;}
        else o += c;
    }
    return o + "\"";
}

} // namespace vj

// ---------------------------------------------------------------------------------------------
// Numbers. A real x is reported as the integer x*S. What is not representable is reported as
// BAD, which no specified number equals.
// ---------------------------------------------------------------------------------------------
constexpr int BAD = 1000000000;

inline int exactNum(double x, double S){
    double y = x*S;
    if (S == 1 && (y == 2147483647.0 || y == -2147483647.0 || y == -2147483648.0)) return (int)y;   // the limits of int
    if (!(std::fabs(y) < 999999999.0) || y != std::floor(y)) return BAD;
    return (int)y;
}
inline int roundNum(double x, double S){
    double y = x*S;
    if (!(std::fabs(y) < 999999999.0)) return BAD;
    return (int)std::llround(y);
}

struct Out {               // builds a JSON array of integers or nested arrays
    std::string s = "[";
    bool first = true;
    void sep(){if (!first) s += ','; first = false;}
    void num(long v){sep(); s += std::to_string(v);}
    void raw(const std::string& r){sep(); s += r;}
    void str(const std::string& r){sep(); s += vj::quote(r);}
    std::string done() const {return s + "]";}
};

// ---------------------------------------------------------------------------------------------
// Case runner
// ---------------------------------------------------------------------------------------------
// Handler: called for each operation, returns the JSON object body of its result (without "i").
using Handler = std::function<std::string(const vj::Val& op)>;

inline int runDriver(int argc, char** argv, std::function<Handler()> make, int timeout_s = 40){
    if (argc < 3){fprintf(stderr, "usage: driver PROGRAM RESULT\n"); return 2;}
    std::ifstream in(argv[1]);
    if (!in){fprintf(stderr, "no program\n"); return 2;}
    std::vector<std::string> lines;
    std::vector<size_t> starts;
    for (std::string s; std::getline(in, s);){
        if (s.find("\"op\": \"reset\"") != std::string::npos || s.find("\"op\":\"reset\"") != std::string::npos)
            starts.push_back(lines.size());
        lines.push_back(s);
    }
    const char* res = argv[2];
    FILE* f = fopen(res, "w");
    if (!f) return 2;
    fclose(f);

    size_t next = 0;           // next case to run
    int crashes = 0;
    while (next < starts.size()){
        int pipefd[2];         // the child reports the line it is about to execute
        if (pipe(pipefd)) return 2;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0){
            close(pipefd[0]);
            FILE* o = fopen(res, "a");
            for (size_t c = next; c < starts.size(); c++){
                size_t end = c + 1 < starts.size() ? starts[c+1] : lines.size();
                alarm(timeout_s);
                Handler h = make();
                for (size_t i = starts[c]; i < end; i++){
                    uint64_t msg[2] = {c, i};
                    if (write(pipefd[1], msg, sizeof msg) < 0) _exit(3);
                    std::string r;
                    vj::Val v = vj::parse(lines[i]);
                    try {r = h(v);}
                    catch (vj::HarnessMistake& m){fprintf(stderr, "HARNESS ERROR: %s\n", m.what.c_str()); _exit(42);}
                    fprintf(o, "{\"i\":%zu,%s}\n", i, r.c_str());
                    fflush(o);
                }
            }
            fclose(o);
            fflush(stdout);
            _exit(0);
        }
        close(pipefd[1]);
        uint64_t msg[2], cur[2] = {next, starts[next]};
        // Reads whole messages; the pipe is written 16 bytes at a time
        while (true){
            ssize_t n = read(pipefd[0], msg, sizeof msg);
            if (n != sizeof msg) break;
            cur[0] = msg[0]; cur[1] = msg[1];
        }
        close(pipefd[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 42) return 42;   // harness error
        std::string why = WIFSIGNALED(status) ? (WTERMSIG(status) == SIGALRM ? "hang" : "signal " + std::to_string(WTERMSIG(status)))
                                              : "exit " + std::to_string(WEXITSTATUS(status));
        f = fopen(res, "a");
        fprintf(f, "\n{\"i\":%zu,\"crash\":%s}\n", (size_t)cur[1], vj::quote(why).c_str());
        next = cur[0] + 1;
        // enough is enough: the remaining cases are not run
        if (why == "hang" || ++crashes >= 6){
            fprintf(f, "{\"stopped\":1}\n");
            next = starts.size();
        }
        fclose(f);
    }
    return 0;
}

[[noreturn]] inline void harnessError(const std::string& s){
    fprintf(stderr, "HARNESS ERROR: %s\n", s.c_str());
    fflush(stderr);
    _exit(42);
}
