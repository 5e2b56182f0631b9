// Drives the C++ sample program's parser and SPDY/3 formatter.  usage: driver < script > events
//   parse USED hextext        USED: 1 = the lists are not empty beforehand
//   new                       a new formatter
//   frame hexname=hexvalue ...
#include <cstdint>
#include <cmath>
#include <array>
#include <cassert>
#include <signal.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define main sample_main
#include "spdy4_headers_sample.cc"
#undef main
static std::string head;     // of the event in progress
static void died(int sig) {
  std::cout << head << ",\"exc\":\"" << (sig == SIGALRM ? "hangs" : "aborts") << "\"}\n";
  std::cout.flush();
  _exit(7);
}
static std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)strtol(s.substr(i, 2).c_str(), 0, 16));
  return r;
}
template <class T> static std::string js(const T& v) {
  std::stringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << (unsigned)(unsigned char)v[i];
  s << "]";
  return s.str();
}
static std::string js(const HeaderFrame& f) {
  std::string r = "[";
  for (size_t i = 0; i < f.size(); ++i) r += (i ? ",[" : "[") + js(f[i].key) + "," + js(f[i].val) + "]";
  return r + "]";
}
static std::string js(const std::vector<HeaderFrame>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + js(v[i]);
  return r + "]";
}
int main() {
  signal(SIGABRT, died); signal(SIGSEGV, died); signal(SIGALRM, died); signal(SIGFPE, died); signal(SIGBUS, died);
  std::string line;
  SPDY3Formatter* formatter = 0;
  std::vector<char> out;
  size_t before = 0;
  while (std::getline(std::cin, line)) {
    std::stringstream in(line);
    std::string op, kv;
    in >> op;
    alarm(30);
    if (op == "parse") {
      int used;
      in >> used >> kv;
      std::string text = unhex(kv.substr(1));     // (after a "=", so that it is never missing)
      std::stringstream source(text);
      std::vector<HeaderFrame> reqs, ress;
      if (used) (used == 1 ? reqs : ress).push_back(HeaderFrame(1, KVPair("k", "v")));
      std::stringstream h;
      h << "{\"ev\":\"new\",\"used\":" << (used ? "true" : "false") << ",\"text\":" << js(text);
      head = h.str() + ",\"ret\":9,\"kept\":false,\"reqs\":[],\"ress\":[]";
      int ret = TrivialHTTPParse::ParseStream(source, &reqs, &ress);
      bool kept = used && reqs.size() == (used == 1) && ress.size() == (used != 1);
      std::cout << h.str() << ",\"ret\":" << ret << ",\"kept\":" << (kept ? "true" : "false")
                << ",\"reqs\":" << js(reqs) << ",\"ress\":" << js(ress) << ",\"exc\":\"\"}\n";
    } else if (op == "new") {
      head = "{\"ev\":\"new\",\"kind\":\"control\",\"primed\":true";
      delete formatter;
      formatter = new SPDY3Formatter;
      out.clear();
      std::cout << head << ",\"exc\":\"\"}\n";
    } else {
      int keep;      // whether the frame is put behind the ones before it
      in >> keep;
      if (!keep) out.clear();
      before = out.size();
      HeaderFrame hf;
      while (in >> kv) {
        size_t eq = kv.find('=');
        hf.push_back(KVPair(unhex(kv.substr(0, eq)), unhex(kv.substr(eq + 1))));
      }
      std::vector<char> was(out);
      const std::string given = js(hf);
      head = "{\"ev\":\"msg\",\"known\":0,\"multi\":[],\"hdrs\":" + given;
      formatter->FormatHeaders(&out, hf);
      bool intact = out.size() >= before && std::vector<char>(out.begin(), out.begin() + before) == was;
      std::vector<char> frame(out.begin() + (intact ? before : 0), out.end());
      std::cout << head << ",\"mut\":" << (js(hf) != given || !intact ? "true" : "false")
                << ",\"out\":" << js(frame) << ",\"exc\":\"\"}\n";
    }
    std::cout.flush();
  }
}
