// Statistics of evaluation measures driven by a script; every reply shows the result in full.
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure-interp.h>
#include <travatar/dict.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
using namespace travatar;
using namespace std;

static map<string, boost::shared_ptr<EvalMeasure> > M;
static map<string, EvalStatsPtr> R;
static string Num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static vector<string> Tab(const string & s) { vector<string> r(1); for(size_t i = 0; i < s.size(); i++) if(s[i] == '\t') r.push_back(""); else r.back() += s[i]; return r; }
static void Show(const EvalStatsPtr & p) {
    string str = p->ConvertToString();
    for(size_t i = 0; i < str.size(); i++) if(str[i] == '\n' || str[i] == '\t') str[i] = ' ';
    cout << "R\t" << Num(p->ConvertToScore()) << '\t' << p->IsZero() << '\t' << str << '\t';
    // the text form also has the values of combined measures
    str = p->WriteStats();
    for(size_t i = 0; i < str.size(); i++) if(str[i] == '\t') str[i] = ' ';
    cout << str << endl;
}
int main() {
    string line;
    while(getline(cin, line)) {
        vector<string> t = Tab(line);
        try {
            const string & o = t[0];
            if(o == "M") { M[t[1]].reset(EvalMeasureLoader::CreateMeasureFromString(t[2])); cout << "ok" << endl; }
            else if(o == "I") {
                ifstream in(t[2].c_str()); string l; vector<vector<Sentence> > refs;
                while(getline(in, l)) refs.push_back(Dict::ParseWordVector(l));
                M[t[1]]->InitializeWithReferences(refs); cout << "ok" << endl;
            }
            else if(o == "S") { R[t[1]] = M[t[2]]->CalculateStats(Dict::ParseWords(t[3]), Dict::ParseWords(t[4])); Show(R[t[1]]); }
            else if(o == "K") { R[t[1]] = M[t[2]]->CalculateCachedStats(Dict::ParseWordVector(t[3]), Dict::ParseWordVector(t[4]), atoi(t[5].c_str()), atoi(t[6].c_str())); Show(R[t[1]]); }
            else if(o == "KC") {
                vector<Sentence> s = Dict::ParseWordVector(t[4]); CfgDataVector d; for(size_t i = 0; i < s.size(); i++) { CfgData x; x.words = s[i]; d.push_back(x); }
                R[t[1]] = M[t[2]]->CalculateCachedStats(Dict::ParseWordVector(t[3]), d, atoi(t[5].c_str()), atoi(t[6].c_str())); Show(R[t[1]]);
            }
            else if(o == "KB") {
                EvalMeasureBleu * b = dynamic_cast<EvalMeasureBleu*>(M[t[2]].get());
                R[t[1]] = b->CalculateStats(Dict::ParseWords(t[3]), Dict::ParseWords(t[4]), atoi(t[5].c_str()), atoi(t[6].c_str())); Show(R[t[1]]);
            }
            else if(o == "CC") { M[t[1]]->ClearCache(); cout << "ok" << endl; }
            else if(o == "+=") { R[t[1]]->PlusEquals(*R[t[2]]); Show(R[t[1]]); }
            else if(o == "+=*") { R[t[1]]->PlusEqualsTimes(*R[t[2]], atof(t[3].c_str())); Show(R[t[1]]); }
            else if(o == "*=") { R[t[1]]->TimesEquals(atof(t[2].c_str())); Show(R[t[1]]); }
            else if(o == "+") { R[t[1]] = R[t[2]]->Plus(*R[t[3]]); Show(R[t[1]]); }
            else if(o == "*") { R[t[1]] = R[t[2]]->Times(atof(t[3].c_str())); Show(R[t[1]]); }
            else if(o == "C") { R[t[1]] = R[t[2]]->Clone(); Show(R[t[1]]); }
            else if(o == "W") { string s = R[t[3]]->WriteStats(); R[t[1]] = M[t[2]]->ReadStats(s); Show(R[t[1]]); cout << s << endl; }
            else if(o == "?") Show(R[t[1]]);
            else if(o == "==") cout << (R[t[1]]->Equals(*R[t[2]])) << (*R[t[2]] == *R[t[1]]) << (R[t[1]] == R[t[2]]) << endl;
            else cout << "??" << endl;
        } catch(const std::exception & e) { cout << "EXC " << e.what() << endl; }
    }
    return 0;
}
