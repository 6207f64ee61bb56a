#include "engine.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace eng {

namespace {

const size_t TAPE_MAX[2] = { 1u << 17, 1u << 19 };
const size_t NOTE_MAX = 1 << 15;
const size_t MSG_MAX = 1 << 13;
const size_t NAME_MAX_ = 48;
const size_t LABELS = 128;
const size_t HASHES = 1 << 18;
const int MAX_WORKERS = 16;

enum Outcome { PASS = 0, FAILED = 1, CRASH = 2, HANG = 3 };

struct Named { char name[NAME_MAX_]; uint64_t count; uint64_t lastCase; };

/** Shared between parent and one worker */
struct Shared {
	volatile uint64_t caseIdx;
	volatile uint64_t done;
	volatile int finished;
	volatile int hasFailure;
	char key[NAME_MAX_];
	char msg[MSG_MAX];
	char note[NOTE_MAX];
	size_t noteLen;
	uint32_t used[2];
	uint64_t nontrivialCount;
	uint64_t hashCount;
	int isNontrivial;
	Named labels[LABELS];
	Named stats[LABELS];
	char samples[4][2048];
	int sampleCount;
	uint64_t hashes[HASHES];
	uint32_t tape[2][1];	// variable part below
};

struct Region {
	Shared* sh;
	uint32_t* tape[2];
};

Region newRegion()
{
	size_t size = sizeof(Shared) + (TAPE_MAX[0] + TAPE_MAX[1]) * sizeof(uint32_t);
	void* p = mmap(0, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	Region r;
	r.sh = static_cast<Shared*>(p);
	r.tape[0] = reinterpret_cast<uint32_t*>(static_cast<char*>(p) + sizeof(Shared));
	r.tape[1] = r.tape[0] + TAPE_MAX[0];
	return r;
}

Region cur;		// of this process
uint64_t rngState[2];
const uint32_t* replayTape[2];
size_t replayLen[2];

uint64_t splitmix(uint64_t& s)
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

void addNamed(Named* tab, const char* name, uint64_t add, bool once)
{
	for (size_t i = 0; i < LABELS; i++) {
		if (!tab[i].name[0]) {
			strncpy(tab[i].name, name, NAME_MAX_-1);
			tab[i].count = 0;
			tab[i].lastCase = ~0ull;
		}
		if (strncmp(tab[i].name, name, NAME_MAX_-1) == 0) {
			if (once && tab[i].lastCase == caseIndex)
				return;
			tab[i].lastCase = caseIndex;
			tab[i].count += add;
			return;
		}
	}
}

std::string scratchDir;

void removeTree(const std::string& path)
{
	// only ever called on directories made by mkdtemp below
	DIR* d = opendir(path.c_str());
	if (!d) return;
	while (struct dirent* e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = path + "/" + n;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
			removeTree(p);
		else
			unlink(p.c_str());
	}
	closedir(d);
	rmdir(path.c_str());
}

std::string jsonEsc(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

double now()
{
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

double cpuTime(pid_t pid)
{
	char p[64]; snprintf(p, sizeof p, "/proc/%d/stat", pid);
	FILE* f = fopen(p, "r");
	if (!f) return 0;
	char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f);
	buf[n] = 0;
	char* q = strrchr(buf, ')');
	if (!q) return 0;
	unsigned long ut = 0, st = 0;
	sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
	return double(ut + st) / sysconf(_SC_CLK_TCK);
}

/** steps back after rewind() */
uint32_t back[2];

void beginCase(uint64_t seed, uint64_t idx)
{
	caseIndex = idx;
	cur.sh->caseIdx = idx;
	cur.sh->noteLen = 0; cur.sh->note[0] = 0;
	cur.sh->used[0] = cur.sh->used[1] = 0; back[0] = back[1] = 0;
	cur.sh->isNontrivial = 0;
	for (int i = 0; i < 2; i++) {
		uint64_t s = seed * 0x9e3779b97f4a7c15ull + idx * 0xd1b54a32d192ed03ull + i * 0x8cb92ba72f3d8dd7ull;
		splitmix(s);
		rngState[i] = s;
	}
}

void endCase()
{
	Shared* s = cur.sh;
	if (s->isNontrivial) {
		s->nontrivialCount++;
		uint64_t h = 1469598103934665603ull;
		for (int k = 0; k < 2; k++)
			for (uint32_t i = 0; i < s->used[k]; i++)
				h = (h ^ cur.tape[k][i]) * 1099511628211ull;
		if (s->hashCount < HASHES)
			s->hashes[s->hashCount++] = h;
		if (s->sampleCount < 4 && s->noteLen > 0) {
			strncpy(s->samples[s->sampleCount], s->note, sizeof(s->samples[0]) - 1);
			s->sampleCount++;
		}
	}
	s->done++;
}

void pinTo(int w)
{
	cpu_set_t all;
	if (sched_getaffinity(0, sizeof all, &all) != 0) return;
	std::vector<int> cpus;
	for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) cpus.push_back(i);
	if (cpus.empty()) return;
	cpu_set_t one; CPU_ZERO(&one); CPU_SET(cpus[w % cpus.size()], &one);
	sched_setaffinity(0, sizeof one, &one);
}

void childSetup(const std::string& errFile)
{
	int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); if (fd > 2) close(fd); }
	signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

std::string slurp(const std::string& f, size_t max)
{
	std::ifstream in(f);
	std::stringstream ss; ss << in.rdbuf();
	std::string s = ss.str();
	if (s.size() > max) s.resize(max);
	return s;
}

/** The part of the error output that describes a crash (netCDF lets HDF5 print the attributes it does not find) */
std::string relevant(const std::string& text)
{
	std::stringstream in(text);
	std::string line, out;
	while (std::getline(in, line)) {
		if (line.compare(0, 9, "HDF5-DIAG") == 0 || line.compare(0, 4, "  #0") == 0
			|| line.compare(0, 10, "    major:") == 0 || line.compare(0, 10, "    minor:") == 0)
			continue;
		// long template names hide the rest
		if (line.size() > 170 && line.find("    #") == 0) line = line.substr(0, 120) + " ... " + line.substr(line.size() - 45);
		out += line + "\n";
	}
	return out;
}

std::string crashKey(int status, const std::string& err)
{
	size_t p = err.find("ERROR: AddressSanitizer: ");
	if (p != std::string::npos) {
		std::string r = err.substr(p + 25, 40);
		return "asan-" + r.substr(0, r.find_first_of(" \n"));
	}
	if (err.find("WARNING: ThreadSanitizer: data race") != std::string::npos) return "data-race";
	if (err.find("WARNING: ThreadSanitizer") != std::string::npos) return "tsan";
	if (err.find("runtime error:") != std::string::npos) return "ubsan";
	if (err.find("Assertion `") != std::string::npos) return "assert";
	if (err.find("ASAGI logError") != std::string::npos) return "logerror";
	if (WIFSIGNALED(status)) return "signal-" + std::to_string(WTERMSIG(status));
	return "exit-" + std::to_string(WEXITSTATUS(status));
}

struct Result { Outcome out; std::string key, msg, note; std::vector<uint32_t> tape[2]; };

/** Runs one case in a fresh child with given tapes */
Result runChild(const CheckDef& def, const std::vector<uint32_t>* tapes, uint64_t seed, uint64_t idx, double cpuLimit)
{
	static Region r = newRegion();
	static int counter = 0;
	memset(static_cast<void*>(r.sh), 0, offsetof(Shared, hashes));
	std::string dir = scratchDir + "/r" + std::to_string(counter++);
	mkdir(dir.c_str(), 0700);
	std::string errFile = dir + "/stderr";
	pid_t pid = fork();
	if (pid == 0) {
		cur = r;
		childSetup(errFile);
		scratchDir = dir;
		pinTo(getpid());
		beginCase(seed, idx);
		if (tapes)
			for (int k = 0; k < 2; k++) { replayTape[k] = tapes[k].data(); replayLen[k] = tapes[k].size(); }
		replaying = tapes != 0;
		def.run();
		endCase();
		r.sh->finished = 1;
		_exit(0);
	}
	if (def.slow > 1) cpuLimit *= def.slow;
	int status = 0; bool killed = false;
	double t0 = now();
	useconds_t nap = 200;
	while (true) {
		pid_t p = waitpid(pid, &status, WNOHANG);
		if (p == pid) break;
		double t = now() - t0;
		if ((t > cpuLimit && cpuTime(pid) > cpuLimit) || t > cpuLimit * 6) { kill(pid, SIGKILL); waitpid(pid, &status, 0); killed = true; break; }
		usleep(nap); if (nap < 5000) nap *= 2;
	}
	Result res;
	for (int k = 0; k < 2; k++) res.tape[k].assign(r.tape[k], r.tape[k] + r.sh->used[k]);
	res.note = std::string(r.sh->note, r.sh->noteLen);
	if (killed) { res.out = HANG; res.key = "hang"; res.msg = "no termination within the CPU limit"; }
	else if (r.sh->hasFailure) { res.out = FAILED; res.key = r.sh->key; res.msg = r.sh->msg; }
	else if (r.sh->finished && WIFEXITED(status) && WEXITSTATUS(status) == 0) res.out = PASS;
	else {
		std::string err = relevant(slurp(errFile, 1 << 24));
		res.out = CRASH; res.key = crashKey(status, err); res.msg = err.substr(0, 12000);
	}
	removeTree(dir);
	return res;
}

void shrink(const CheckDef& def, Result& best, double budget, int& attempts)
{
	double end = now() + budget;
	attempts = 0;
	uint64_t dummy = 0;
	auto attempt = [&](std::vector<uint32_t>* t) {
		attempts++;
		Result r = runChild(def, t, 0, dummy, 20);
		if (r.out != PASS && r.key == best.key) {
			// accept the tape as it was really used (trailing part cut)
			size_t a = r.tape[0].size() + r.tape[1].size(), b = best.tape[0].size() + best.tape[1].size();
			if (a < b || (a == b && (r.tape[0] < best.tape[0] || (r.tape[0] == best.tape[0] && r.tape[1] < best.tape[1])))) {
				best = r;
				return true;
			}
		}
		return false;
	};
	bool improved = true;
	while (improved && now() < end) {
		improved = false;
		for (int k = 1; k >= 0; k--) {
			// everything from here on zero
			for (size_t cut = 0; cut < best.tape[k].size() && now() < end; ) {
				std::vector<uint32_t> t[2] = { best.tape[0], best.tape[1] };
				bool any = false;
				for (size_t i = cut; i < t[k].size(); i++) if (t[k][i]) any = true;
				if (!any) break;
				t[k].resize(cut);
				if (attempt(t)) { improved = true; break; }
				cut = cut ? cut * 2 : 1;
			}
			// delete chunks
			for (size_t len = std::max<size_t>(1, best.tape[k].size() / 2); len >= 1 && now() < end; len /= 2) {
				for (size_t i = 0; i + len <= best.tape[k].size() && now() < end; ) {
					std::vector<uint32_t> t[2] = { best.tape[0], best.tape[1] };
					t[k].erase(t[k].begin() + i, t[k].begin() + i + len);
					if (attempt(t)) improved = true; else i += len;
				}
				// zero chunks
				for (size_t i = 0; i + len <= best.tape[k].size() && now() < end; i += len) {
					std::vector<uint32_t> t[2] = { best.tape[0], best.tape[1] };
					bool any = false;
					for (size_t j = i; j < i + len; j++) { if (t[k][j]) any = true; t[k][j] = 0; }
					if (any && attempt(t)) improved = true;
				}
				if (len == 1) break;
			}
			// lower single values
			for (size_t i = 0; i < best.tape[k].size() && now() < end; i++) {
				for (int step = 0; step < 3 && now() < end; step++) {
					std::vector<uint32_t> t[2] = { best.tape[0], best.tape[1] };
					if (i >= t[k].size() || !t[k][i]) break;
					t[k][i] = step == 0 ? 1 : step == 1 ? t[k][i] / 2 : t[k][i] - 1;
					if (t[k] < best.tape[k] && attempt(t)) improved = true;
				}
			}
		}
	}
}

void writeReplay(const std::string& file, const std::string& id, const Result& r)
{
	std::ofstream o(file);
	o << "check " << id << "\nkey " << r.key << "\n";
	for (int k = 0; k < 2; k++) {
		size_t n = r.tape[k].size();
		while (n && r.tape[k][n-1] == 0) n--;
		o << (k ? "sched " : "data ") << n;
		for (size_t i = 0; i < n; i++) o << ' ' << r.tape[k][i];
		o << "\n";
	}
	o << "# what fails:\n";
	std::istringstream a(r.msg + "\n--- case ---\n" + r.note);
	std::string l;
	while (std::getline(a, l)) o << "# " << l << "\n";
}

bool readReplay(const std::string& file, std::vector<uint32_t>* t)
{
	std::ifstream in(file);
	if (!in) return false;
	std::string l;
	while (std::getline(in, l)) {
		std::istringstream ss(l);
		std::string w; ss >> w;
		if (w == "data" || w == "sched") {
			size_t n; ss >> n;
			std::vector<uint32_t>& v = t[w == "sched"];
			v.resize(n);
			for (size_t i = 0; i < n; i++) ss >> v[i];
		}
	}
	return true;
}

/** known findings: lines "KNOWN <id> <key> <substring of the message>" */
struct Known { std::string id, key, text, desc; };
std::vector<Known> readKnown(const std::string& file, const std::string& id)
{
	std::vector<Known> v;
	std::ifstream in(file);
	std::string l;
	while (std::getline(in, l)) {
		// known: property=<id> key=<key> match=<text> :: <description>
		if (l.compare(0, 6, "known:") != 0) continue;
		Known k;
		size_t p = l.find("property="), q = l.find("key="), m = l.find("match="), d = l.find(" :: ");
		if (p == std::string::npos || q == std::string::npos || m == std::string::npos || d == std::string::npos) continue;
		k.id = l.substr(p + 9, l.find(' ', p) - p - 9);
		k.key = l.substr(q + 4, l.find(' ', q) - q - 4);
		k.text = l.substr(m + 6, d - m - 6);
		k.desc = l.substr(d + 4);
		if (k.id == id) v.push_back(k);
	}
	return v;
}

} // namespace

uint64_t caseIndex = 0;
bool thorough = false;
bool replaying = false;

const std::string& scratch() { return scratchDir; }

uint32_t draw(Stream s, uint32_t n)
{
	if (n <= 1) return 0;
	if (back[s]) return cur.tape[s][cur.sh->used[s] - back[s]--] % n;	// after rewind()
	uint32_t pos = cur.sh->used[s];
	if (pos >= TAPE_MAX[s]) return 0;
	uint32_t v;
	if (replaying)
		v = pos < replayLen[s] ? replayTape[s][pos] % n : 0;
	else
		v = static_cast<uint32_t>((splitmix(rngState[s]) >> 11) % n);
	cur.tape[s][pos] = v;
	cur.sh->used[s] = pos + 1;
	return v;
}
uint32_t mark(Stream s) { return cur.sh->used[s] - back[s]; }
void rewind(Stream s, uint32_t m) { back[s] = cur.sh->used[s] - m; }

uint64_t bits64()
{
	uint64_t a = draw(DATA, 1u << 22), b = draw(DATA, 1u << 21), c = draw(DATA, 1u << 21);
	return a << 42 | b << 21 | c;
}

void fail(const char* key, const char* fmt, ...)
{
	strncpy(cur.sh->key, key, NAME_MAX_-1);
	va_list ap; va_start(ap, fmt);
	vsnprintf(cur.sh->msg, MSG_MAX, fmt, ap);
	va_end(ap);
	cur.sh->hasFailure = 1;
	_exit(3);
}

void nontrivial() { cur.sh->isNontrivial = 1; }
void label(const char* name) { addNamed(cur.sh->labels, name, 1, true); }
void stat(const char* name, uint64_t add) { addNamed(cur.sh->stats, name, add, false); }

void note(const char* fmt, ...)
{
	if (cur.sh->noteLen + 2 >= NOTE_MAX) return;
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(cur.sh->note + cur.sh->noteLen, NOTE_MAX - cur.sh->noteLen - 1, fmt, ap);
	va_end(ap);
	if (n > 0) cur.sh->noteLen = std::min(NOTE_MAX - 2, cur.sh->noteLen + static_cast<size_t>(n));
}

int main(int argc, char** argv, const CheckDef* defs, size_t n)
{
	std::string id, evidence, replayDir, replayFile, knownFile, propId;
	uint64_t seed = 1, cases = 0, only = ~0ull;
	double budget = 0;
	int workers = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
	bool list = false, dump = false;
	std::vector<std::string> idList;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--check") id = next();
		else if (a == "--property") propId = next();
		else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
		else if (a == "--cases") cases = strtoull(next().c_str(), 0, 10);
		else if (a == "--budget") budget = atof(next().c_str());
		else if (a == "--thorough") thorough = true;
		else if (a == "--workers") workers = atoi(next().c_str());
		else if (a == "--evidence") evidence = next();
		else if (a == "--replay-dir") replayDir = next();
		else if (a == "--replay") replayFile = next();
		else if (a == "--known") knownFile = next();
		else if (a == "--only") only = strtoull(next().c_str(), 0, 10);
		else if (a == "--dump") dump = true;
		else if (a == "--list") list = true;
	}
	if (list) { for (size_t i = 0; i < n; i++) printf("%s\n", defs[i].id); return 0; }
	const CheckDef* def = 0;
	for (size_t i = 0; i < n; i++) if (id == defs[i].id) def = &defs[i];
	if (!def) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 2; }
	if (propId.empty()) propId = id.substr(0, 3);
	workers = std::max(1, std::min(workers, MAX_WORKERS));
	if (!cases) cases = thorough ? def->thorough : def->quick;

	// scratch
	{
		char t1[] = "/dev/shm/asagi-verif-XXXXXX", t2[] = "/tmp/asagi-verif-XXXXXX";
		char* d = mkdtemp(t1);
		if (!d) d = mkdtemp(t2);
		if (!d) { perror("mkdtemp"); return 2; }
		scratchDir = d;
	}
	std::string topScratch = scratchDir;
	struct Cleaner { std::string d; pid_t p; ~Cleaner() { if (getpid() == p) removeTree(d); } } cleaner = { topScratch, getpid() };

	static Region mainRegion = newRegion();
	cur = mainRegion;
	if (def->setup) def->setup();

	if (!replayFile.empty()) {
		std::vector<uint32_t> t[2];
		if (!readReplay(replayFile, t)) { fprintf(stderr, "cannot read %s\n", replayFile.c_str()); return 2; }
		Result r = runChild(*def, t, 0, 0, 60);
		printf("%s\n", r.note.c_str());
		if (r.out == PASS) { printf("replay: passed\n"); return 0; }
		printf("replay: FAILED [%s]\n%s\n", r.key.c_str(), r.msg.c_str());
		return 1;
	}
	if (only != ~0ull) {
		Result r = runChild(*def, 0, seed, only, 120);
		if (dump || r.out != PASS) printf("%s\n", r.note.c_str());
		printf("case %lu: %s [%s] %s\n", (unsigned long) only, r.out == PASS ? "passed" : "FAILED", r.key.c_str(), r.msg.c_str());
		return r.out == PASS ? 0 : 1;
	}

	std::vector<Known> known = readKnown(knownFile, propId);
	for (const Known& k : known)
		printf("KNOWN-FINDING: property=%s %s\n", k.id.c_str(), k.desc.c_str());
	fflush(stdout);

	double slow = def->slow > 1 ? def->slow : 1;
	double t0 = now();
	double deadline = budget > 0 ? t0 + budget : 1e300;
	std::vector<Region> regions;
	std::vector<pid_t> pids(workers, -1);
	std::vector<uint64_t> nextCase(workers);
	std::vector<uint64_t> lastIdx(workers, ~0ull);
	std::vector<double> lastChange(workers, t0), lastCpu(workers, 0);
	std::vector<std::string> dirs(workers);
	uint64_t knownHits = 0, unreproduced = 0, inconclusive = 0;
	std::set<uint64_t> skip;	// cases that are known findings or not reproducible
	for (int w = 0; w < workers; w++) {
		regions.push_back(newRegion());
		nextCase[w] = w;
		dirs[w] = topScratch + "/w" + std::to_string(w);
		mkdir(dirs[w].c_str(), 0700);
	}
	auto spawn = [&](int w) {
		fflush(stdout);
		Region r = regions[w];
		r.sh->hasFailure = 0; r.sh->finished = 0; r.sh->caseIdx = ~0ull;
		lastChange[w] = now(); lastCpu[w] = 0; lastIdx[w] = ~0ull;
		pid_t pid = fork();
		if (pid == 0) {
			cur = r;
			childSetup(dirs[w] + "/stderr");
			scratchDir = dirs[w];
			pinTo(w);
			uint64_t batch = 0;
			for (uint64_t i = nextCase[w]; i < cases; i += workers) {
				if (skip.count(i)) continue;
				if (++batch > 400) { r.sh->finished = 2; _exit(0); }	// fresh process now and then
				if (now() > deadline) break;
				beginCase(seed, i);
				def->run();
				endCase();
				if (ftell(stderr) > (1 << 20)) ftruncate(2, 0);
			}
			r.sh->finished = 1;
			_exit(0);
		}
		pids[w] = pid;
	};
	for (int w = 0; w < workers; w++) spawn(w);

	bool violated = false;
	Result bad; uint64_t badCase = 0;
	int live = workers;
	while (live > 0 && !violated) {
		bool event = false;
		for (int w = 0; w < workers && !violated; w++) {
			if (pids[w] < 0) continue;
			Shared* sh = regions[w].sh;
			int status = 0;
			pid_t p = waitpid(pids[w], &status, WNOHANG);
			bool hang = false;
			if (p == 0) {
				if (sh->caseIdx != lastIdx[w]) { lastIdx[w] = sh->caseIdx; lastChange[w] = now(); lastCpu[w] = cpuTime(pids[w]); }
				else if (now() - lastChange[w] > 30 * slow && cpuTime(pids[w]) - lastCpu[w] > 25 * slow) hang = true;
				else if (now() - lastChange[w] > 150 * slow) hang = true;
				if (!hang) continue;
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &status, 0);
			}
			event = true;
			pids[w] = -1;
			if (!hang && sh->finished == 1) { live--; continue; }
			if (!hang && sh->finished == 2 && !sh->hasFailure) {
				nextCase[w] = sh->caseIdx + workers; spawn(w); continue;
			}
			uint64_t idx = sh->caseIdx;
			if (idx == ~0ull) { live--; inconclusive++; continue; }
			// Reproduce in a fresh process
			std::vector<uint32_t> t[2];
			for (int k = 0; k < 2; k++) t[k].assign(regions[w].tape[k], regions[w].tape[k] + sh->used[k]);
			std::string how = hang ? "hang" : sh->hasFailure ? std::string(sh->key) + ": " + sh->msg : crashKey(status, slurp(dirs[w] + "/stderr", 1 << 16));
			fprintf(stderr, "[%s] case %lu failed (%s), reproducing\n", id.c_str(), (unsigned long) idx, how.substr(0, 600).c_str());
			Result r = hang ? runChild(*def, 0, seed, idx, 60) : runChild(*def, t, 0, idx, 60);
			bool repro = r.out != PASS;
			if (!repro && !hang) { r = runChild(*def, 0, seed, idx, 60); repro = r.out != PASS; }
			if (!repro) { (hang ? inconclusive : unreproduced)++; fprintf(stderr, "[%s] case %lu did not reproduce alone\n", id.c_str(), (unsigned long) idx); }
			else {
				bool isKnown = false;
				for (const Known& k : known)
					if (k.key == r.key && r.msg.find(k.text) != std::string::npos) isKnown = true;
				if (isKnown) knownHits++;
				else { violated = true; bad = r; badCase = idx; break; }
			}
			skip.insert(idx);
			nextCase[w] = idx + workers;
			spawn(w);
		}
		if (!event) usleep(2000);
	}
	for (int w = 0; w < workers; w++)
		if (pids[w] > 0) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }

	uint64_t evals = 0, nontriv = 0;
	std::vector<uint64_t> hashes;
	std::map<std::string, uint64_t> labels, stats;
	std::vector<std::string> samples;
	for (int w = 0; w < workers; w++) {
		Shared* s = regions[w].sh;
		evals += s->done; nontriv += s->nontrivialCount;
		hashes.insert(hashes.end(), s->hashes, s->hashes + s->hashCount);
		for (size_t i = 0; i < LABELS && s->labels[i].name[0]; i++) labels[s->labels[i].name] += s->labels[i].count;
		for (size_t i = 0; i < LABELS && s->stats[i].name[0]; i++) stats[s->stats[i].name] += s->stats[i].count;
		for (int i = 0; i < s->sampleCount && samples.size() < 3 && (i < 1 || workers < 3); i++) samples.push_back(s->samples[i]);
	}
	std::sort(hashes.begin(), hashes.end());
	uint64_t distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();

	std::string replayPath;
	if (violated) {
		int attempts = 0;
		Result orig = bad;
		shrink(*def, bad, thorough ? 120 : 25, attempts);
		// must fail three times from the tape alone
		int ok = 0;
		for (int i = 0; i < 3; i++) { Result r = runChild(*def, bad.tape, 0, 0, 60); if (r.out != PASS) ok++; }
		if (ok < 3) {
			bad = orig; ok = 0;
			for (int i = 0; i < 3; i++) { Result r = runChild(*def, bad.tape, 0, 0, 60); if (r.out != PASS) ok++; }
		}
		if (ok < 3) { violated = false; unreproduced++; fprintf(stderr, "[%s] failure of case %lu is not stable\n", id.c_str(), (unsigned long) badCase); }
		else {
			if (replayDir.empty()) replayDir = ".";
			replayPath = replayDir + "/" + id + "-seed" + std::to_string(seed) + "-case" + std::to_string(badCase) + ".replay";
			writeReplay(replayPath, id, bad);
			fprintf(stderr, "[%s] shrunk in %d attempts to %zu+%zu choices\n[%s] %s\n--- case ---\n%s\n", id.c_str(), attempts,
				bad.tape[0].size(), bad.tape[1].size(), bad.key.c_str(), bad.msg.substr(0, 6000).c_str(), bad.note.c_str());
		}
	}

	double wall = now() - t0;
	if (!evidence.empty()) {
		std::ofstream o(evidence);
		o << "{\"check\":\"" << id << "\",\"property\":\"" << propId << "\",\"tier\":\"" << (thorough ? "thorough" : "quick")
		  << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << evals
		  << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct << ",\"rule\":\"" << jsonEsc(def->rule) << "\",\"planned_cases\":" << cases
		  << ",\"known_finding_hits\":" << knownHits << ",\"not_reproduced\":" << unreproduced << ",\"inconclusive\":" << inconclusive
		  << ",\"classes\":{";
		bool first = true;
		for (auto& l : labels) { o << (first ? "" : ",") << "\"" << jsonEsc(l.first) << "\":" << l.second; first = false; }
		o << "},\"stats\":{";
		first = true;
		for (auto& l : stats) { o << (first ? "" : ",") << "\"" << jsonEsc(l.first) << "\":" << l.second; first = false; }
		o << "},\"samples\":[";
		for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\"" << jsonEsc(samples[i]) << "\"";
		o << "]},\"assumptions\":[\"" << jsonEsc(def->assumptions) << "\"],\"wall_s\":" << wall << ",\"violations\":" << (violated ? 1 : 0) << "}\n";
	}
	printf("%s: %lu cases, %lu non-trivial (%lu distinct), %.1f s%s\n", id.c_str(), (unsigned long) evals, (unsigned long) nontriv, (unsigned long) distinct, wall,
		unreproduced ? " [unreproduced failures]" : "");
	for (auto& l : labels) printf("  class %-40s %lu\n", l.first.c_str(), (unsigned long) l.second);
	for (auto& l : stats) printf("  stat  %-40s %lu\n", l.first.c_str(), (unsigned long) l.second);
	if (violated) {
		printf("VIOLATION property=%s replay=%s\n", propId.c_str(), replayPath.c_str());
		fflush(stdout);
		removeTree(topScratch);
		return 1;
	}
	return 0;
}

}
