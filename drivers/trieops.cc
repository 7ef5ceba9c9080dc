// The compressed string trie driven by a script (hex keys); every reply is the full result of the call.
//   trieops SCRATCHFILE < script
#include <marisa/marisa.h>
#include <marisa/iostream.h>
#include <marisa/stdio.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace std;

static string Hex(const char * p, size_t n) { static const char * d = "0123456789abcdef"; string r; r.reserve(2*n); for(size_t i = 0; i < n; i++) { r += d[(unsigned char)p[i] >> 4]; r += d[p[i] & 15]; } return r; }
static int V(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static string Un(const string & s) { string r; for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(V(s[i]) * 16 + V(s[i+1])); return r; }

int main(int argc, char ** argv) {
    string file = argv[1], line, buf;
    marisa::Trie * trie = new marisa::Trie;
    marisa::Keyset * keys = new marisa::Keyset;
    vector<marisa::Agent*> agents;
    for(int i = 0; i < 3; i++) agents.push_back(new marisa::Agent);
    vector<string> hold(3);
    while(getline(cin, line)) {
        istringstream is(line); string op, a, b; is >> op >> a >> b;
        ostringstream o;
        try {
            if(op == "key") { string s = Un(a == "-" ? "" : a); keys->push_back(s.data(), s.size(), b.empty() ? 1.0 : atof(b.c_str())); continue; }
            else if(op == "build") {
                trie->build(*keys, strtol(a.c_str(), NULL, 0));
                o << trie->size() << ' ' << trie->num_keys() << ' ' << trie->empty() << ' ' << keys->size() << ' ' << trie->num_tries() << ' ' << (int)trie->tail_mode() << ' ' << (int)trie->node_order() << " ;";
                for(size_t i = 0; i < keys->size(); i++) o << ' ' << (*keys)[i].id() << ':' << Hex((*keys)[i].ptr(), (*keys)[i].length());
            } else if(op == "reload") {
                marisa::Trie * t2 = new marisa::Trie;
                unlink(file.c_str()); // a file that is mapped stays as it is
                if(a == "file") { trie->save(file.c_str()); t2->load(file.c_str()); }
                else if(a == "mmap") { trie->save(file.c_str()); t2->mmap(file.c_str()); }
                else if(a == "map") { ostringstream q; q << *trie; buf = q.str(); string * keep = new string(buf); t2->map(keep->data(), keep->size()); }
                else if(a == "stream") { stringstream q; q << *trie; q >> *t2; }
                else if(a == "fd") {
                    int fd = open(file.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); trie->write(fd); lseek(fd, 0, SEEK_SET); t2->read(fd); close(fd);
                } else if(a == "stdio") {
                    FILE * f = fopen(file.c_str(), "w+b"); marisa::fwrite(f, *trie); fflush(f); rewind(f); marisa::fread(f, t2); fclose(f);
                } else if(a == "swap") { trie->swap(*t2); }
                if(a == "swap") o << t2->size() << ' ' << t2->size();
                else o << trie->size() << ' ' << t2->size() << ' ' << t2->io_size() << ' ' << trie->io_size() << ' ' << t2->num_nodes();
                marisa::Trie * x = trie; trie = t2; t2 = x;
                for(size_t i = 0; i < agents.size(); i++) { delete agents[i]; agents[i] = new marisa::Agent; }
                delete t2;
            } else if(op == "clear") { trie->clear(); keys->clear(); delete keys; keys = new marisa::Keyset; delete trie; trie = new marisa::Trie;
                for(size_t i = 0; i < agents.size(); i++) { delete agents[i]; agents[i] = new marisa::Agent; } }
            else {
                // OP<agent> ARG
                int g = op[op.size() - 1] - '0'; op.erase(op.size() - 1);
                marisa::Agent & ag = *agents[g];
                if(op == "rev") { ag.set_query((size_t)strtoul(a.c_str(), NULL, 0)); trie->reverse_lookup(ag); o << ag.key().id() << ':' << Hex(ag.key().ptr(), ag.key().length()); }
                else if(op == "look") { hold[g] = Un(a == "-" ? "" : a); ag.set_query(hold[g].data(), hold[g].size()); if(trie->lookup(ag)) o << ag.key().id() << ':' << Hex(ag.key().ptr(), ag.key().length()); else o << '-'; }
                else if(op == "cps" || op == "pred") {
                    hold[g] = Un(a == "-" ? "" : a); ag.set_query(hold[g].data(), hold[g].size());
                    int max = b.empty() ? 1 << 30 : atoi(b.c_str());
                    while(max-- > 0 && (op == "cps" ? trie->common_prefix_search(ag) : trie->predictive_search(ag))) o << ag.key().id() << ':' << Hex(ag.key().ptr(), ag.key().length()) << ' ';
                } else if(op == "cpn" || op == "prn") {
                    // go on with the search the agent is in
                    if(op == "cpn" ? trie->common_prefix_search(ag) : trie->predictive_search(ag)) o << ag.key().id() << ':' << Hex(ag.key().ptr(), ag.key().length()); else o << '-';
                } else o << '?';
            }
        } catch(marisa::Exception & e) { cout << "X " << e.error_code() << "\n"; continue; }
        cout << o.str() << "\n";
    }
    unlink(file.c_str());
    return 0;
}
