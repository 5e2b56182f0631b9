// Plays operation histories on the C++ identifier stores.  usage: driver < script > events
//   new BITS COUNT | get STORE N | done STORE K POS...
#include "spdy4_headers_codec.cc"
#include <iostream>
#include <sstream>
typedef std::vector<long> Ints;
static std::string js(const Ints& v) {
  std::stringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
  s << "]";
  return s.str();
}
struct Any {
  virtual long get() = 0;
  virtual void done(long) = 0;
  virtual ~Any() {}
};
template <typename T> struct Of : Any {
  IDStore<T> st;
  long get() { return static_cast<long>(st.GetNext()); }
  void done(long id) { st.DoneWithId(static_cast<T>(id)); }
};
int main() {
  std::vector<Any*> st;
  std::vector<Ints> used;
  std::vector<set<long> > seen;
  std::string op;
  while (std::cin >> op) {
    if (op == "new") {
      long bits, n;
      std::cin >> bits >> n;
      for (size_t i = 0; i < st.size(); ++i) delete st[i];
      st.clear();
      used.assign(n, Ints());
      seen.assign(n, set<long>());
      for (long i = 0; i < n; ++i) {
        if (bits == 8) st.push_back(new Of<uint8_t>()); else st.push_back(new Of<uint16_t>());
      }
      std::cout << "{\"ev\":\"new\",\"variant\":\"c++\",\"max\":" << (1L << bits) << ",\"count\":" << n << ",\"exc\":\"\"}\n";
      continue;
    }
    long s, n, again = 0;
    Ints ids;
    std::cin >> s >> n;
    for (long i = 0; i < n; ++i) {
      if (op == "get") {
        long x = st[s]->get();
        again += seen[s].count(x);
        seen[s].insert(x);
        used[s].push_back(x);
        ids.push_back(x);
      } else {
        long p;
        std::cin >> p;
        long x = used[s][p];
        used[s].erase(used[s].begin() + p);
        ids.push_back(x);
        st[s]->done(x);
      }
    }
    std::cout << "{\"ev\":\"" << op << "\",\"s\":" << s + 1 << ",\"ids\":" << js(ids) << ",\"exc\":\"\",\"again\":" << again << "}\n";
  }
  return 0;
}
