// Drives the C++ SPDY4 header encoder.  usage: driver < script > events
//   new REQ STATE VALS   (STATE, VALS: limits, -1 = the default)
//   limits STATE VALS
//   frame STREAM GROUP ENDS hexname=hexvalue ...
#include <cstdint>
#include <cmath>
#include <array>
#include <cassert>
#include <signal.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "header_freq_tables.h"
#include "trivial_http_parse.h"
#include "bit_bucket.h"
#include "spdy4_headers_codec.h"
static std::string head;     // of the event in progress
static void died(int sig) {
  std::cout << head << ",\"exc\":\"" << (sig == SIGALRM ? "hangs" : "aborts") << "\",\"frame\":[],\"size\":0}\n";
  std::cout.flush();
  _exit(7);
}
static std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)strtol(s.substr(i, 2).c_str(), 0, 16));
  return r;
}
static std::string js(const std::string& v) {
  std::stringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << (unsigned)(unsigned char)v[i];
  s << "]";
  return s.str();
}
int main() {
  signal(SIGABRT, died); signal(SIGSEGV, died); signal(SIGALRM, died); signal(SIGFPE, died); signal(SIGBUS, died);
  std::string line;
  SPDY4HeadersCodec* codec = 0;
  while (std::getline(std::cin, line)) {
    std::stringstream in(line);
    std::string op;
    in >> op;
    alarm(30);
    std::stringstream h;
    if (op == "frame") {
      unsigned long stream, group; int ends;
      in >> stream >> group >> ends;
      HeaderFrame hf;
      std::string kv, hs;
      while (in >> kv) {
        size_t eq = kv.find('=');
        hf.push_back(KVPair(unhex(kv.substr(0, eq)), unhex(kv.substr(eq + 1))));
        hs += (hs.empty() ? "[" : ",[") + js(hf.back().key) + "," + js(hf.back().val) + "]";
      }
      h << "{\"ev\":\"frame\",\"stream\":" << stream << ",\"group\":" << group << ",\"ends\":" << (ends ? "true" : "false")
        << ",\"hdrs\":[" << hs << "]";
      head = h.str();
      BitBucket bb;
      codec->ProcessFrame(&bb, stream, group, hf, ends);
      std::string bytes(bb.BytesBegin(), bb.BytesEnd());
      std::cout << head << ",\"exc\":\"\",\"frame\":" << js(bytes) << ",\"size\":" << codec->CurrentStateSize() << "}\n";
      continue;
    }
    int req = 0; long state, vals;
    if (op == "new") in >> req;
    in >> state >> vals;
    h << "{\"ev\":\"" << op << "\",\"req\":" << (req ? "true" : "false") << ",\"state\":" << state << ",\"vals\":" << vals;
    head = h.str();
    if (op == "new") {
      delete codec;
      codec = new SPDY4HeadersCodec(req ? FreqTables::request_freq_table : FreqTables::response_freq_table);
    }
    if (state >= 0) codec->SetMaxStateSize(state);
    if (vals >= 0) codec->SetMaxVals(vals);
    std::cout << head << ",\"exc\":\"\",\"frame\":[],\"size\":" << codec->CurrentStateSize() << "}\n";
  }
  delete codec;
  return 0;
}
