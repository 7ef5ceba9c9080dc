// Sparse vectors and maps driven by a script of operations; every reply is the full content of the result.
#include <travatar/sparse-map.h>
#include <travatar/dict.h>
#include <travatar/string-util.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
using namespace travatar;
using namespace std;

static SparseVector V[8];
static SparseMap M[8];
static string Num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static void Show(const SparseVector & v) {
    cout << "V " << v.size();
    for(SparseVector::SparseVectorImpl::const_iterator it = v.begin(); it != v.end(); ++it) cout << '\t' << Dict::WSym(it->first) << '\t' << Num(it->second);
    cout << "\n";
}
static void Show(const SparseMap & v) {
    cout << "M " << v.size();
    for(SparseMap::const_iterator it = v.begin(); it != v.end(); ++it) cout << '\t' << Dict::WSym(it->first) << '\t' << Num(it->second);
    cout << "\n";
}
static vector<SparsePair> Pairs(const vector<string> & t, size_t from) {
    vector<SparsePair> p;
    for(size_t i = from; i + 1 < t.size(); i += 2) p.push_back(make_pair(Dict::WID(t[i]), atof(t[i+1].c_str())));
    return p;
}
int main() {
    string line;
    while(getline(cin, line)) {
        vector<string> t = Tokenize(line, '\t');
        const string & o = t[0];
        int a = t.size() > 1 ? atoi(t[1].c_str()) : 0, b = t.size() > 2 ? atoi(t[2].c_str()) : 0, c = t.size() > 3 ? atoi(t[3].c_str()) : 0;
        try {
            if(o == "id") { for(size_t i = 1; i < t.size(); i++) Dict::WID(t[i]); cout << "-\n"; }
            else if(o == "vnew") { V[a] = SparseVector(Pairs(t, 2)); Show(V[a]); }
            else if(o == "vparse") { V[a] = Dict::ParseSparseVector(t[2]); Show(V[a]); }
            else if(o == "vadd") { V[a].Add(Dict::WID(t[2]), atof(t[3].c_str())); Show(V[a]); }
            else if(o == "v+=") { V[a] += V[b]; Show(V[a]); }
            else if(o == "v-=") { V[a] -= V[b]; Show(V[a]); }
            else if(o == "v+") { V[a] = V[b] + V[c]; Show(V[a]); }
            else if(o == "v-") { V[a] = V[b] - V[c]; Show(V[a]); }
            else if(o == "v*") { V[a] = V[b] * (Real)atof(t[3].c_str()); Show(V[a]); }
            else if(o == "vdot") cout << "S " << Num(V[a] * V[b]) << "\n";
            else if(o == "veq") cout << "E " << (V[a] == V[b]) << (V[a] != V[b]) << "\n";
            else if(o == "vprint") cout << "P " << Dict::PrintSparseVector(V[a]) << "\n";
            else if(o == "vjson") cout << "J " << V[a] << "\n";
            else if(o == "vmap") { M[a] = V[b].ToMap(); Show(M[a]); }
            else if(o == "mnew") { M[a] = SparseMap(); vector<SparsePair> p = Pairs(t, 2); for(size_t i = 0; i < p.size(); i++) M[a][p[i].first] = p[i].second; Show(M[a]); }
            else if(o == "mparse") { M[a] = Dict::ParseSparseMap(t[2]); Show(M[a]); }
            else if(o == "m+=") { M[a] += M[b]; Show(M[a]); }
            else if(o == "m-=") { M[a] -= M[b]; Show(M[a]); }
            else if(o == "m+") { M[a] = M[b] + M[c]; Show(M[a]); }
            else if(o == "m-") { M[a] = M[b] - M[c]; Show(M[a]); }
            else if(o == "m*") { M[a] = M[b] * (Real)atof(t[3].c_str()); Show(M[a]); }
            else if(o == "mdot") cout << "S " << Num(M[a] * M[b]) << "\n";
            else if(o == "meq") cout << "E " << (M[a] == M[b]) << (M[a] != M[b]) << "\n";
            else if(o == "mprint") cout << "P " << Dict::PrintSparseMap(M[a]) << "\n";
            else if(o == "mjson") cout << "J " << M[a] << "\n";
            else if(o == "mnorm") { NormalizeL1(M[a], atof(t[2].c_str())); Show(M[a]); }
            else if(o == "xdot") cout << "S " << Num(M[a] * V[b]) << "\n";
            else if(o == "x+=") { M[a] += V[b]; Show(M[a]); }
            else if(o == "x-=") { M[a] -= V[b]; Show(M[a]); }
            else if(o == "x+") { M[a] = M[b] + V[c]; Show(M[a]); }
            else if(o == "x-") { M[a] = M[b] - V[c]; Show(M[a]); }
            else cout << "? " << o << "\n";
        } catch(std::exception & e) { cout << "X\n"; }
    }
    return 0;
}
