// Scenario runner: reads scenarios (ndjson) on stdin or from a file, writes one observation per line.
// Every scenario has "ev" (which handler replays it); the observation repeats the scenario fields needed by the
// trace specification. Exceptions leave the handler as {"err":1}.
#include "common.hpp"
namespace hv {
std::map<std::string, Handler>& Registry()
{
    static std::map<std::string, Handler> r;
    return r;
}
}
int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(false);
    std::ifstream fin;
    std::istream* in = &std::cin;
    std::ofstream fout;
    std::ostream* out = &std::cout;
    if (argc > 1 && std::string(argv[1]) != "-") { fin.open(argv[1]); in = &fin; }
    if (argc > 2) { fout.open(argv[2]); out = &fout; }
    // The library prints to stdout; keep the observation stream separate.
    std::ostringstream sink;
    std::string line;
    while (std::getline(*in, line)) {
        if (line.empty()) continue;
        json s = json::parse(line);
        json o;
        const std::string ev = s["ev"].get<std::string>();
        auto it = hv::Registry().find(ev);
        if (it == hv::Registry().end()) { std::cerr << "unknown event " << ev << "\n"; return 3; }
        std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
        try {
            o = it->second(s);
            if (!o.contains("st")) o["st"] = "ok";
        } catch (const json::exception& e) { // only the harness uses this library
            std::cerr << "bad scenario: " << e.what() << "\n";
            return 3;
        } catch (const std::exception& e) {
            o = json::object();
            o["st"] = "err";
            o["what"] = std::string(e.what()).substr(0, 1500);
        }
        std::cout.rdbuf(old);
        sink.str("");
        *out << o.dump(-1, ' ', true, json::error_handler_t::replace) << "\n";
        out->flush();
    }
    return 0;
}
