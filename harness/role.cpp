// Interpreter for end-to-end runs of the four roles and the generator: executes the script in $VH_SCRIPT with the real
// exit path (std::exit) and logs every observed value to $VH_LOG.
#include <bits/stdc++.h>
#include <fcntl.h>
#include <unistd.h>
#include "validate.h"
using namespace std;

static int logFd = -1;
static void lg(const string& s) { string l = s + "\n"; (void)!write(logFd, l.data(), l.size()); }
static string unhex(const string& s) { string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(stoi(s.substr(i, 2), nullptr, 16)); return r; }
static string hex_(const string& s) { string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static string rs(long double x) { char b[64]; snprintf(b, 64, "%.21Lg", x); return b; }

static int role;
static void initRole(int argc, char** argv) {
	switch (role) {
		case 0: InputValidator::init(argc, argv); break;
		case 1: AnswerValidator::init(argc, argv); break;
		case 2: OutputValidator::init(argc, argv); break;
		case 3: Interactor::init(argc, argv); break;
		case 4: Generator::init(argc, argv); break;
	}
}
static InputStream& in(const string& n) {
	if (n == "P") return Multipass::prevstate;
	if (n == "T") return role == 1 ? AnswerValidator::testIn : role == 2 ? OutputValidator::testIn : Interactor::testIn;
	if (n == "J") return OutputValidator::juryAns;
	// S: the judged stream
	return role == 0 ? InputValidator::testIn : role == 1 ? AnswerValidator::ans : role == 2 ? OutputValidator::teamAns : Interactor::fromTeam;
}
static OutputStream& outs(const string& n) {
	if (n == "J") return ValidateBase::juryOut;
	if (n == "E") return ValidateBase::juryErr;
	if (n == "T") return role == 3 ? Interactor::teamOut : OutputValidator::teamOut;
	if (n == "P") return Interactor::toTeam;
	if (n == "G") return Generator::testOut;
	if (n == "S") return Multipass::nextstate;
	return Multipass::nextpass;   // N
}
static Verdicts::Verdict verdict(const string& n) { return n == "AC" ? Verdicts::AC : n == "WA" ? Verdicts::WA : n == "PE" ? Verdicts::PE : n == "FAIL" ? Verdicts::FAIL : Verdicts::Verdict(stoi(n)); }

static bool keepRefs = false; static std::map<string, Constraint*> kept;
static Constraint& con(const string& n) {
	if (!keepRefs) return ConstraintsBase::constraint[n];
	auto it = kept.find(n); if (it == kept.end()) it = kept.emplace(n, &ConstraintsBase::constraint[n]).first;
	return *it->second;
}
struct Return { int code; };
static void exec(vector<string> f, int argc, char** argv) {
	using namespace ConstraintsBase;
	auto I = [&](size_t i) { return Integer(stoll(f.at(i))); };
	auto R = [&](size_t i) { return Real(stold(f.at(i))); };
	const string& op = f[0];
	if (op == "try") {    // an exception is expected; log whether it came
		vector<string> g(f.begin() + 1, f.end());
		try { exec(g, argc, argv); lg("noexcept"); } catch (const std::exception&) { lg("except"); }
	}
	else if (op == "init") { initRole(argc, argv); lg("init"); }
	else if (op == "mp") { Multipass::init(); lg("pass " + to_string(Multipass::pass)); }
	else if (op == "set") { Real v = R(2);
		if (f[1] == "abs") ValidateBase::floatAbsTol = v; else if (f[1] == "rel") ValidateBase::floatRelTol = v;
		else if (f[1] == "space") ValidateBase::spaceSensitive = v != 0; else ValidateBase::caseSensitive = v != 0; }
	else if (op == "get") lg("settings " + rs(ValidateBase::floatAbsTol) + " " + rs(ValidateBase::floatRelTol) + " " + to_string(int(bool(ValidateBase::spaceSensitive))) + " " + to_string(int(bool(ValidateBase::caseSensitive))));
	else if (op == "feq") lg("feq " + to_string(int(ValidateBase::floatEqual(R(1), R(2)))) + to_string(int(ValidateBase::floatLess(R(1), R(2)))) + to_string(int(ValidateBase::floatGreater(R(1), R(2)))));
	else if (op == "seq") lg("seq " + to_string(int(bool(ValidateBase::stringEqual(f[1], f[2])))));
	else if (op == "rmatch") lg("rmatch " + to_string(int(regex_match(f[2], ValidateBase::caseSensitive.regex(f[1])))));
	else if (op == "str") lg("v " + hex_(in(f[1]).string()));
	else if (op == "int") lg("v " + to_string(in(f[1]).integer()));
	else if (op == "intb") lg("v " + to_string(in(f[1]).integer(I(2), I(3))));
	else if (op == "real") lg("v " + rs(in(f[1]).real()));
	else if (op == "realb") lg("v " + rs(in(f[1]).real(R(2), R(3))));
	else if (op == "space") { in(f[1]).space(); lg("ok"); }
	else if (op == "nl") { in(f[1]).newline(); lg("ok"); }
	else if (op == "eof") { in(f[1]).eof(); lg("ok"); }
	else if (op == "noteof") { in(f[1]).noteof(); lg("ok"); }
	else if (op == "xstr") { in(f[1]).expectString(f[2]); lg("ok"); }
	else if (op == "xreal") { in(f[1]).expectReal(R(2)); lg("ok"); }
	else if (op == "xint") { in(f[1]).expectInt(I(2)); lg("ok"); }
	else if (op == "all") { string a; Integer n = I(2); for (Integer i = 0; i < n; i++) a += (i ? " " : "") + hex_(in(f[1]).string()); in(f[1]).eof(); lg("all " + a); }
	// constraint ops: name in f[1]; stream f[2]
	else if (op == "cint") lg("v " + to_string(in(f[2]).integer(I(3), I(4), con(f[1]))));
	else if (op == "cints") { for (auto v : in(f[2]).integers(I(3), I(4), con(f[1]), I(5), f[6] == "n" ? '\n' : ' ')) lg("v " + to_string(v)); }
	else if (op == "creal") lg("v " + rs(in(f[2]).real(R(3), R(4), con(f[1]))));
	else if (op == "creals") { for (auto v : in(f[2]).reals(R(3), R(4), con(f[1]), I(5), f[6] == "n" ? '\n' : ' ')) lg("v " + rs(v)); }
	else if (op == "crs") lg("v " + rs(in(f[2]).realStrict(R(3), R(4), 0, 30, con(f[1]))));
	else if (op == "crss") { for (auto v : in(f[2]).realsStrict(R(3), R(4), 0, 30, con(f[1]), I(5), f[6] == "n" ? '\n' : ' ')) lg("v " + rs(v)); }
	else if (op == "cstr") lg("v " + hex_(in(f[2]).string(I(3), I(4), con(f[1]))));
	else if (op == "cstrp") lg("v " + hex_(in(f[2]).string(regex("[a-z]*"), I(3), I(4), con(f[1]))));
	else if (op == "cstrs") { for (auto& v : in(f[2]).strings(I(3), I(4), con(f[1]), I(5), f[6] == "n" ? '\n' : ' ')) lg("v " + hex_(v)); }
	else if (op == "cstrps") { for (auto& v : in(f[2]).strings(regex("[a-z]*"), I(3), I(4), con(f[1]), I(5), f[6] == "n" ? '\n' : ' ')) lg("v " + hex_(v)); }
	else if (op == "clog") con(f[1]).log(I(2), I(3), I(4));
	else if (op == "clogr") con(f[1]).log(R(2), R(3), R(4));
	else if (op == "clogv") con(f[1]).log(I(2), I(3), vector<int>(size_t(I(4))));
	else if (op == "ckeep") keepRefs = true;   // use the references of the first mention from now on
	else if (op == "cname") (void)constraint[f.size() > 1 ? unhex(f[1]) : string()];
	else if (op == "out") outs(f[1]) << unhex(f[2]);
	else if (op == "outv") { if (f[2] == "i") outs(f[1]) << I(3); else if (f[2] == "r") outs(f[1]) << R(3); else if (f[2] == "v") outs(f[1]) << vector<Integer>{I(3), I(4)} << std::endl; }
	else if (op == "verdict") verdict(f[1]).exit();
	else if (op == "verdictOn") outs(f[2]) << verdict(f[1]);
	else if (op == "NEXT") Multipass::NEXT();
	else if (op == "NEXTon") outs(f[1]) << static_cast<std::ostream& (*)(std::ostream&)>(Multipass::NEXT);
	else if (op == "rnd") { string a; for (int i = 0; i < 5; i++) a += " " + to_string(Random::integer(0, 1000000000)); lg("rnd" + a + " " + to_string(Random::perm(20)[7]) + " " + rs(Random::real(0, 1))); }
	else if (op == "seedrnd") Random::seed(UInteger(stoull(f[1])));
	else if (op == "return") throw Return{int(I(1))};
	else if (op == "throw") throw runtime_error("scripted");
	else { lg("BAD OP " + op); _exit(99); }
}
int main(int argc, char** argv) {
	logFd = open(getenv("VH_LOG"), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	role = atoi(getenv("VH_ROLE"));
	ifstream ss(getenv("VH_SCRIPT")); string line;
	vector<string> lines; while (getline(ss, line)) lines.push_back(line);
	int rc = 0;
	for (auto& l : lines) {
		vector<string> f; size_t p = 0; while (true) { size_t q = l.find('\t', p); f.push_back(l.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) break; p = q + 1; }
		if (f[0] == "return") { rc = stoi(f[1]); break; }
		exec(f, argc, argv);
	}
	return rc;
}
