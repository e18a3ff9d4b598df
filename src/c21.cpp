// C21: installing, upgrading and removing (scripts/install.sh) against a reference of the whole file tree and
// of the services. The script, the tools it calls and the installed daemon run as an unprivileged user (as root
// of a user namespace of its own), below c21_shim.c: system paths are those of a tree in the scratch directory.
#include "gen.h"
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sched.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
static int g_umask = 022; static std::string S, RT, PJ;                          // scratch directory, tree of the system
typedef std::map<std::string, std::string> Tree;   // name -> type, mode and content
static void snap(const std::string& d, const std::string& rel, Tree& m) {
  DIR* h = opendir(d.c_str()); if (!h) return;
  while (dirent* x = readdir(h)) {
    std::string n = x->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n, v = rel + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; int md = st.st_mode & 07777;
    if (S_ISDIR(st.st_mode)) { m[v] = fmt("directory %o", md); snap(p, v, m); } else if (S_ISLNK(st.st_mode)) { char b[1000]; ssize_t k = readlink(p.c_str(), b, sizeof b); m[v] = "link " + std::string(b, k > 0 ? k : 0); } else m[v] = fmt("file %o ", md) + read_file(p);
  }
  closedir(h);
}
static std::string brief(const std::string& x) { return printable(x.substr(0, 90), 100) + (x.size() > 90 ? "..." : ""); }
static std::string body(const Tree& t, const std::string& p) { auto i = t.find(p); if (i == t.end()) return "<none>"; size_t k = i->second.find(' ', 5); return i->second.compare(0, 5, "file ") || k == std::string::npos ? "<none>" : i->second.substr(k + 1); }
static int mode_of(const Tree& t, const std::string& p) { auto i = t.find(p); return i == t.end() ? -1 : (int)strtol(i->second.c_str() + i->second.find(' '), nullptr, 8); }
static void mk(const std::string& v, const std::string& data, int mode = 0644) { std::string p = RT + v; for (size_t i = RT.size() + 1; (i = p.find('/', i)) != std::string::npos; i++) mkdir(p.substr(0, i).c_str(), 0755); if (v.back() == '/') { mkdir(p.c_str(), 0755); chmod(p.c_str(), mode); return; } write_file(p, data); chmod(p.c_str(), mode); }
static bool has(const std::string& p) { struct stat st; return !lstat(p.c_str(), &st); }
static void own(const std::string& d) { lchown(d.c_str(), 65534, 65534); DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* x = readdir(h)) { std::string n = x->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; lchown(p.c_str(), 65534, 65534); if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) own(p); } closedir(h); }
static pid_t start(const std::vector<std::string>& argv, const std::string& in, const std::string& out, const std::string& cwd, bool root, const std::string& fail, const std::string& strict = "") {
  std::vector<std::string> env = {"PATH=" + S + "/stub:" + S + "/bin", "LD_PRELOAD=" + std::string(getenv("VP_SHIM")), "VPROOT=" + S, "LC_ALL=C.UTF-8", "HOME=/root", "TERM=dumb"}; if (!fail.empty()) env.push_back("VPFAIL=" + fail);
  std::vector<char*> a, e; for (auto& x : argv) a.push_back((char*)x.c_str()); a.push_back(nullptr); for (auto& x : env) e.push_back((char*)x.c_str()); e.push_back(nullptr);
  pid_t p = real_fork();
  if (p == 0) {
    auto put = [](const char* f, const char* t) { int d = (int)syscall(SYS_openat, AT_FDCWD, f, O_WRONLY, 0); bool ok = d >= 0 && syscall(SYS_write, d, t, strlen(t)) == (long)strlen(t); if (d >= 0) syscall(SYS_close, d); return ok; };
    setsid(); int i = (int)syscall(SYS_openat, AT_FDCWD, in.c_str(), O_RDONLY, 0), o = (int)syscall(SYS_openat, AT_FDCWD, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(i, 0); dup2(o, 1); dup2(o, 2); for (int k = 3; k < 1024; k++) syscall(SYS_close, k);
    if (setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(125);
    prctl(PR_SET_DUMPABLE, 1, 0, 0, 0); if (root) { if (unshare(CLONE_NEWUSER) || !put("/proc/self/setgroups", "deny") || !put("/proc/self/uid_map", "0 65534 1") || !put("/proc/self/gid_map", "0 65534 1")) _exit(125); }
    umask(g_umask); if (syscall(SYS_chdir, cwd.c_str())) _exit(125);
    syscall(SYS_execve, a[0], a.data(), e.data()); _exit(126);
  }
  return p;
}
static bool wait_for(pid_t p, double s, int& st) { for (double t = 0; t < s; t += 0.002) { if (waitpid(p, &st, WNOHANG) == p) return true; timespec ts = {0, 2000000}; syscall(SYS_nanosleep, &ts, nullptr); } kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); return false; }
struct Run { int rc; std::string out; };
static Run run(Ctx& c, const std::vector<std::string>& argv, const std::string& answers, bool root, const std::string& fail = "") {
  write_file(S + "/in", answers); pid_t p = start(argv, S + "/in", S + "/out", PJ + "/scripts", root, fail); int st; if (!wait_for(p, 30, st)) c.fail("hang", "the script does not end\n" + read_file(S + "/out"));
  Run r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); r.out = read_file(S + "/out"); if (r.rc == 125) throw CaseSkip{"no user namespace"}; return r;
}
static std::string key_of(const std::string& unit, const std::string& k) { size_t p = ("\n" + unit).find("\n" + k + "="); if (p == std::string::npos) return ""; std::string v = unit.substr(p + k.size() + 1); v = v.substr(0, v.find('\n')); if (v.size() > 1 && v[0] == '"') v = v.substr(1, v.size() - 2); return v; }
static std::vector<std::string> words(const std::string& t) { std::vector<std::string> w; std::string x; for (char ch : t + " ") if (ch == ' ' || ch == '\t') { if (!x.empty()) w.push_back(x); x = ""; } else x += ch; return w; }
static const char* SYSTEMD_STUB = R"X(#!/bin/sh
U=/etc/systemd/system/preload.service; echo "systemctl $*" >>"$VPROOT/svc/calls"
[ -e "$VPROOT/svc/broken" ] && exit 1
C=; NOW=
for a in "$@"; do case "$a" in --now) NOW=1;; --version) [ "$C" ] || C=--version;; -*) ;; *) [ "$C" ] && N="$a" || C="$a";; esac; done
N=${N%.service}
case "$C" in
--version) echo "systemd 255 (stand-in)"; exit 0;;
daemon-reload|daemon-reexec) rm -f "$VPROOT/svc/loaded"; exit 0;;
esac
[ "$N" = preload ] || { echo "stand-in: $N" >>"$VPROOT/svc/strange"; exit 1; }
up() { [ -e "$VPROOT/svc/loaded" ] || { [ -f $U ] || exit 5; cp $U "$VPROOT/svc/loaded"; }; cp /usr/local/sbin/preload "$VPROOT/svc/active" || exit 1; }
down() { rm -f "$VPROOT/svc/active"; }
case "$C" in
is-active|status) [ -e "$VPROOT/svc/active" ] && exit 0; exit 3;;
is-enabled) [ -f $U ] && [ -e "$VPROOT/svc/enabled" ] && exit 0; exit 1;;
start) [ -e "$VPROOT/svc/active" ] || up;;
restart|reload-or-restart) down; up;;
try-restart) [ -e "$VPROOT/svc/active" ] && { down; up; };;
reset-failed|show|cat) ;;
stop) [ -f $U ] || [ -e "$VPROOT/svc/loaded" ] || exit 5; down;;
enable) [ -f $U ] || exit 1; :>"$VPROOT/svc/enabled"; [ "$NOW" ] && { [ -e "$VPROOT/svc/active" ] || up; }; exit 0;;
disable) [ -f $U ] || exit 1; rm -f "$VPROOT/svc/enabled"; [ "$NOW" ] && down; exit 0;;
*) echo "stand-in: $*" >>"$VPROOT/svc/strange"; exit 1;;
esac
exit 0
)X";
static const char* RC_STUB = R"X(#!/bin/sh
U=/etc/init.d/preload; echo "${0##*/} $*" >>"$VPROOT/svc/calls"
A="${0##*/} $*"; A="${A% --quiet}"; case "$A" in
"rc-service preload status") [ -x $U ] && [ -e "$VPROOT/svc/active" ] && exit 0; exit 3;;
"rc-service preload start") [ -x $U ] || exit 1; [ -e "$VPROOT/svc/active" ] || cp /usr/local/sbin/preload "$VPROOT/svc/active"; exit;;
"rc-service preload restart") [ -x $U ] || exit 1; cp /usr/local/sbin/preload "$VPROOT/svc/active"; exit;;
"rc-service preload zap") ;;
"rc-service preload stop") [ -x $U ] || exit 1; rm -f "$VPROOT/svc/active"; exit 0;;
"rc-update add preload default"|"rc-update add preload") [ -x $U ] || exit 1; :>"$VPROOT/svc/enabled"; exit 0;;
"rc-update show"|"rc-update show default"|"rc-update") echo " sshd | default"; echo " sysctl-preload | boot default"; [ -e "$VPROOT/svc/enabled" ] && echo " preload | default"; exit 0;;
"rc-update del preload default"|"rc-update del preload"|"rc-update delete preload default") [ -e "$VPROOT/svc/enabled" ] || exit 1; rm -f "$VPROOT/svc/enabled"; exit 0;;
esac
echo "stand-in: ${0##*/} $*" >>"$VPROOT/svc/strange"; exit 1
)X";
static const char* MAKE_STUB = R"X(#!/bin/sh
[ -f Makefile ] || exit 2
for a in "$@"; do case "$a" in -*) ;; distclean) exit 2;; clean) rm -f preload preload.conf; exit 0;; all) ;; *) exit 2;; esac; done
[ -e "$VPROOT/next/broken" ] && exit 2
cp "$VPROOT/next/preload" "$VPROOT/next/preload.conf" .
)X";
static const char* SUDO_STUB = R"X(#!/bin/sh
while :; do case "$1" in -*) shift;; *) break;; esac; done
exec "$@"
)X";
static bool yes(const std::string& a) { std::string t = a; while (!t.empty() && t.back() == ' ') t.pop_back(); while (!t.empty() && t[0] == ' ') t.erase(0, 1); for (auto& ch : t) ch = (char)tolower(ch); return t == "y" || t == "yes"; }
static bool no(const std::string& a) { std::string t = a; while (!t.empty() && t.back() == ' ') t.pop_back(); while (!t.empty() && t[0] == ' ') t.erase(0, 1); for (auto& ch : t) ch = (char)tolower(ch); return t == "n" || t == "no"; }
static const char *BIN = "/usr/local/sbin/preload", *CONF = "/etc/preload.conf", *STD = "/var/lib/preload", *SUNIT = "/etc/systemd/system/preload.service", *RUNIT = "/etc/init.d/preload";
enum { SYSTEMD, OPENRC, SYSV, NONE };

static void install(Src& s, Ctx& c) {
  S = g_scratch; RT = S + "/root"; std::string daemon = read_file(getenv("VP_DAEMON")), shipped_conf = read_file(getenv("VP_CONF")); if (daemon.empty() || shipped_conf.empty()) throw CaseSkip{"not built"};
  PJ = S + (s.chance(1, 3) ? "/my pro j" : "/proj"); for (auto* d : {"/root", "/stub", "/bin", "/svc", "/next"}) mkdir((S + d).c_str(), 0755); mkdir(PJ.c_str(), 0755); mkdir((PJ + "/scripts").c_str(), 0755);
  for (auto* t : {"bash", "sh", "cp", "mv", "rm", "rmdir", "mkdir", "chmod", "chown", "cat", "dirname", "basename", "install", "ls", "ln", "readlink", "realpath", "touch", "grep", "sed", "awk", "id", "stat", "mktemp", "tr", "head", "tail", "cut", "env", "test", "true", "false", "printf", "echo", "sleep", "cmp", "diff", "find", "xargs", "sort", "wc", "tee", "date", "uname", "whoami", "sync", "seq", "expr"}) symlink((std::string("/usr/bin/") + t).c_str(), (S + "/bin/" + t).c_str());
  write_file(PJ + "/scripts/install.sh", read_file(REPO_DIR "/scripts/install.sh")); write_file(PJ + "/scripts/build.sh", read_file(REPO_DIR "/scripts/build.sh"));
  { static const std::vector<int> um = {022, 022, 022, 077, 002, 027}; g_umask = s.pick(um); }
  int init = s.weighted({5, 4, 1, 1}); bool broken = init != SYSTEMD && s.chance(1, 5); std::string unit = init == SYSTEMD ? SUNIT : init == OPENRC ? RUNIT : "";
  auto stub = [&](const char* n, const char* t) { write_file(S + "/stub/" + n, t); chmod((S + "/stub/" + n).c_str(), 0755); };
  if (init == SYSTEMD || broken) stub("systemctl", SYSTEMD_STUB); if (broken) write_file(S + "/svc/broken", ""); if (init == OPENRC || (init == SYSTEMD && s.chance(1, 6))) { stub("rc-service", RC_STUB); stub("rc-update", RC_STUB); }
  stub("make", MAKE_STUB); stub("gcc", "#!/bin/sh\nexit 0\n"); stub("cc", "#!/bin/sh\nexit 0\n"); stub("pkg-config", "#!/bin/sh\nexit 0\n"); stub("nproc", "#!/bin/sh\necho 2\n"); stub("sudo", SUDO_STUB);
  for (auto* d : {"/etc/", "/usr/", "/usr/local/", "/var/", "/tmp/", "/run/", "/root/", "/home/"}) mk(d, "", 0755);
  if (s.chance(4, 5)) { mk("/var/lib/", "", 0755); mk("/var/log/", "", 0755); }
  mk("/etc/init.d/", "", 0755); if (init == SYSV) mk("/etc/init.d/functions", "x\n"); if (init == SYSTEMD) mk("/etc/systemd/system/", "", 0755);
  // what else is there
  static const std::vector<std::string> others = {"/usr/local/sbin/other", "/usr/local/sbin/preload.bak", "/usr/local/sbin/preload-ng", "/usr/sbin/preload", "/etc/preload.conf.d/x", "/etc/preload.conf.bak", "/etc/preload/x", "/usr/local/var/lib/other/x", "/usr/local/var/lib/preload.old/x", "/var/lib/other/x", "/var/lib/preload-data", "/etc/systemd/system/other.service", "/etc/systemd/system/preload.service.d/o.conf", "/etc/systemd/system/preload.timer", "/etc/init.d/preload2", "/etc/init.d/other", "/var/log/other.log", "/var/log/preload.log", "/var/log/preload/preload.log", "/home/u/preload.conf", "/usr/local/etc/preload.conf", "/usr/local/var/log/x"};
  int no_ = 0; for (auto& o : others) if (s.chance(1, 3)) { mk(o, "mine " + o + "\n", s.chance(1, 4) ? 0600 : 0644); no_++; }
  if (s.chance(1, 4)) mk("/usr/local/sbin/", "", 0755);
  // the package
  int version = 0, where = s.weighted({3, 2, 2}); std::string bin, conf; bool link_conf = false;
  auto ship = [&] { version++; bin = daemon + fmt("version %d", version); conf = shipped_conf + fmt("# version %d\n", version); for (auto* d : {"bin", "preload-src"}) { rm_rf(PJ + "/" + d); bool used = where == 2 || (where == 0) == (d[0] == 'b'); if (used || d[0] == 'p') mkdir((PJ + "/" + d).c_str(), 0755); if (d[0] == 'p') write_file(PJ + "/preload-src/Makefile", "all:\n"); if (!used) continue; std::string mark = where == 2 && d[0] == 'p' ? "built" : ""; write_file(PJ + "/" + d + "/preload", bin + mark); chmod((PJ + "/" + d + "/preload").c_str(), s.chance(1, 5) ? 0644 : 0755); write_file(PJ + "/" + d + "/preload.conf", conf + (mark.empty() ? "" : "# " + mark + "\n")); } };
  ship();
  if (!unit.empty() && s.chance(1, 4)) {   // an older version is installed
    mk(BIN, daemon + "older", 0755); mk(unit, init == SYSTEMD ? "# an older service\n[Service]\nExecStart=/usr/local/sbin/preload -f\n[Install]\nWantedBy=multi-user.target\n" : "#!/sbin/openrc-run\n# an older service\n", init == SYSTEMD ? 0644 : 0755); if (s.chance(1, 2)) mk(CONF, "# older\n");
    if (s.chance(2, 3)) write_file(S + "/svc/enabled", ""); if (s.chance(2, 3)) { write_file(S + "/svc/active", daemon + "older"); if (init == SYSTEMD) write_file(S + "/svc/loaded", read_file(RT + unit)); } c.note("an older version is installed"); c.label("over an older version");
  }
  own(S);
  static const char* IN[] = {"systemd", "openrc", "sysvinit", "unknown"}, *WH[] = {"bin", "preload-src", "both"}; c.note(fmt("init system: %s%s, package in %s, %d other files", IN[init], broken ? " (and a systemctl that does not work)" : "", WH[where], no_));
  static const std::vector<std::string> ans = {"", "y", "n", "Y", "N", "yes", "YES", "Yes", "no", "No", "maybe", "yy", "nope", " y", "n ", "0"};
  int n = 2 + s.small(7), done = 0; bool installed = false; std::string cur_bin; int states = 0;
  for (int op = 0; op < n; op++) {
    int k = s.weighted({8, 5, 1, 1, 1, 3, 2, 2, 4, 2});
    Tree a, b; auto active = [] { return has(S + "/svc/active"); }; auto enabled = [] { return has(S + "/svc/enabled"); };
    auto same_but = [&](const std::set<std::string>& may, const std::set<std::string>& dirs, const std::string& out) {
      for (auto& x : b) { auto i = a.find(x.first); if (i != a.end() && i->second == x.second) continue; bool ok = may.count(x.first) > 0; for (auto& d : dirs) if (x.first == d || x.first.compare(0, d.size() + 1, d + "/") == 0) ok = true;
        if (i == a.end() && x.second.compare(0, 9, "directory") == 0) { ok = ok || [&] { for (auto& m : may) if (m.compare(0, x.first.size() + 1, x.first + "/") == 0) return true; for (auto* d : {STD, "/usr/local/var/lib/preload", "/usr/local/var/log", "/var/log", "/var/log/preload", "/usr/local/etc", "/run/preload", "/var/cache/preload"}) if (!strcmp(d, x.first.c_str()) || std::string(d).compare(0, x.first.size() + 1, x.first + "/") == 0) return true; return false; }(); }
        c.check(ok, i == a.end() ? "created" : "changed", (i == a.end() ? "created: " : "changed: ") + x.first + "\nnow " + brief(x.second) + (i == a.end() ? "" : "\nbefore " + brief(i->second)) + "\n" + out); }
      for (auto& x : a) { bool ok = b.count(x.first) || may.count(x.first); for (auto& d : dirs) if (x.first == d || x.first.compare(0, d.size() + 1, d + "/") == 0) ok = true; c.check(ok, "lost", "lost: " + x.first + "\n" + out); }
    };
    unlink((S + "/svc/calls").c_str()); unlink((S + "/svc/while-running").c_str()); bool was_active = active(), was_enabled = enabled(); snap(RT, "", a); std::string bash = S + "/bin/bash", sc = PJ + "/scripts/install.sh", rel = s.chance(1, 3) ? "install.sh" : s.chance(1, 2) ? "../scripts/install.sh" : sc;
    auto post = [&](const std::string& sb, const std::string& scf, const std::string& out, bool conf_there, bool want_over, int want_on) {
      std::string after = link_conf ? body(b, "/home/conf") : body(b, CONF);
          c.check(body(b, BIN) == sb, "program", "the shipped program is not in place\n" + out); c.check(mode_of(b, BIN) == 0755, "program-mode", fmt("the program has mode %o\n", mode_of(b, BIN)) + out);
          if (!conf_there || want_over) c.check(after == scf, "configuration", "the shipped configuration is not in place\n" + out); c.check((mode_of(b, link_conf ? "/home/conf" : CONF) & 0444) == 0444, "configuration-mode", "the configuration cannot be read by all\n" + out);
          if (!unit.empty()) {
            c.check(body(b, unit) != "<none>", "service", "no service was installed\n" + out); c.check((mode_of(b, unit) & 0777) == (init == SYSTEMD ? 0644 : 0755), "service-mode", fmt("the service file has mode %o\n", mode_of(b, unit)) + out);
            if (want_on == 0) { c.check(enabled() == was_enabled, "declined", "enabled though declined\n" + out); c.check(!active(), "declined", was_active ? "still running the old program\n" + out : "started though declined\n" + out); }
            else if (want_on == 1) { c.check(enabled(), "enable", "not enabled\n" + out); c.check(active() && read_file(S + "/svc/active") == sb, "start", "the program just installed is not running\n" + out); }
            c.check(!has(S + "/svc/while-running"), "not-stopped", "the program was replaced while the service ran\n" + out); c.check(body(b, unit).find("an older service") == std::string::npos, "service", "the old service file is still there\n" + out);
            if (init == SYSTEMD && active()) c.check(read_file(S + "/svc/loaded") == body(b, unit), "service", "the service manager runs an old service file\n" + out);
            if (was_active) { std::string cl = read_file(S + "/svc/calls"); c.check(cl.find(" stop") != std::string::npos || cl.find("stop preload") != std::string::npos || cl.find(" restart") != std::string::npos, "not-stopped", "the running daemon was not stopped\n" + out); }
          } else c.check(!active() && !enabled(), "service", "a service without a known init system\n" + out);
    };
    if (k == 0 || k == 1) {
      std::string fail; if (s.chance(1, 6)) { static const std::vector<std::string> f = {"/usr/local", "/usr/local/sbin", "/etc", "/etc/preload.conf", "/var/lib", "/etc/systemd/system", "/etc/init.d", "/usr/local/sbin/preload", "/var/lib/preload"}; fail = s.pick(f); }
      std::string a1 = s.pick(ans), a2 = s.pick(ans), in = a1 + "\n" + a2 + "\nn\nn\n"; bool cut = s.chance(1, 12); if (cut) { in.resize(s.chance(1, 2) ? 0 : a1.size() + 1); a1 = in.empty() ? "" : a1; a2 = ""; } bool conf_there = has(RT + CONF);
      if (k == 0) {
        bool want_over = conf_there && yes(a1); std::string ena = conf_there ? a2 : a1;
        std::vector<std::string> av = {bash, rel}; if (s.chance(1, 2)) av.push_back("install");
        Run r = run(c, av, in, true, fail); snap(RT, "", b); std::string src = where == 1 ? "preload-src" : "bin", sb = read_file(PJ + "/" + src + "/preload"), scf = read_file(PJ + "/" + src + "/preload.conf"), out = fmt("exit status %d\n", r.rc) + r.out + "\ncalls:\n" + read_file(S + "/svc/calls");
        c.note(fmt("install, answers '%s' '%s'%s%s%s: exit status %d", a1.c_str(), a2.c_str(), was_active ? ", while it runs" : "", fail.empty() ? "" : (", with " + fail + " read-only").c_str(), cut ? ", cut short" : "", r.rc));
        c.check(r.rc < 125, "broken-script", out); std::set<std::string> may = {BIN, CONF, STD}; if (link_conf) may.insert("/home/conf"); if (!unit.empty()) may.insert(unit);
        same_but(may, {}, out);
        std::string before = link_conf ? body(a, "/home/conf") : body(a, CONF), after = link_conf ? body(b, "/home/conf") : body(b, CONF);
        if (conf_there && !want_over) c.check(after == before && (!link_conf || b[CONF] == a[CONF]), "configuration", "the user's configuration was not kept\n" + out);
        if (r.rc) { c.check(!fail.empty() || cut, "install", "it failed\n" + out); c.check(r.out.find("Installation Complete") == std::string::npos, "claims", "it failed, and says it is complete\n" + out); if (sb != body(b, BIN)) c.check(!active() || !was_active || read_file(S + "/svc/active") == body(b, BIN) || body(b, BIN) == body(a, BIN), "running-replaced", "the program was changed while running\n" + out); c.label("install fails"); if (active() && !was_active) c.fail("started", "it failed, and yet the service was started\n" + out); cur_bin = body(b, BIN); installed = false; }
        else {
          post(sb, scf, out, conf_there, want_over, no(ena) ? 0 : 1);
          installed = true; cur_bin = sb; done++; if (was_active) c.label("upgrade while running"); if (conf_there) c.label(want_over ? "configuration overwritten" : "configuration kept");
        }
      } else {
        bool gone = s.chance(1, 6), noexec = s.chance(1, 8); if (noexec && a.count(BIN)) { chmod((RT + BIN).c_str(), 0644); a.clear(); snap(RT, "", a); }
        auto away = [&](bool back) { if (gone) for (auto* d : {"/bin", "/preload-src"}) { std::string x = PJ + d, y = PJ + d + ".away"; syscall(SYS_renameat2, AT_FDCWD, (back ? y : x).c_str(), AT_FDCWD, (back ? x : y).c_str(), 0); } };
        if (gone) c.label("removed without the package's files"); away(false); Run r = run(c, {bash, rel, "uninstall"}, in, true, fail); away(true); snap(RT, "", b); std::string out = fmt("exit status %d\n", r.rc) + r.out + "\ncalls:\n" + read_file(S + "/svc/calls");
        c.note(fmt("uninstall, answers '%s' '%s'%s%s%s: exit status %d", a1.c_str(), a2.c_str(), was_active ? ", while it runs" : "", fail.empty() ? "" : (", with " + fail + " read-only").c_str(), cut ? ", cut short" : "", r.rc)); c.check(r.rc < 125, "broken-script", out);
        std::set<std::string> may = {BIN}; if (!unit.empty()) may.insert(unit); if (yes(a1)) may.insert(CONF); std::set<std::string> dirs; if (yes(a2)) { dirs.insert(STD); dirs.insert("/usr/local/var/lib/preload"); }
        same_but(may, dirs, out);
        if (r.rc) { c.check(!fail.empty() || cut, "uninstall", "it failed\n" + out); c.check(r.out.find("uninstalled successfully") == std::string::npos, "claims", "it failed, and says it succeeded\n" + out); c.label("uninstall fails"); }
        else {
          c.check(!has(RT + BIN), "program-left", "the program is still there\n" + out); if (!unit.empty()) { c.check(!has(RT + unit), "service-left", "the service is still there\n" + out); c.check(!active() && !enabled(), "service-left", active() ? "the service still runs\n" + out : "the service is still enabled\n" + out); c.check(init != SYSTEMD || !has(S + "/svc/loaded"), "service-left", "the service manager still knows the service\n" + out); }
          if (yes(a1)) c.check(!has(RT + CONF), "configuration-left", "the configuration is still there\n" + out);
          if (yes(a2)) { c.check(!has(RT + STD), "state-left", "the state data is still there\n" + out); c.label("state removed"); }
          if (a.count(BIN)) { done++; c.label("removed"); } if (was_active) c.label("removed while running");
        }
        installed = false; cur_bin = body(b, BIN); if (!has(RT + CONF)) link_conf = false;
      }
    } else if (k == 2) {
      static const std::vector<std::string> w = {"help", "--help", "-h", "--version", "remove", "Install", "--uninstall", "-x"}; std::string o = s.pick(w); bool h = o == "help" || o == "--help" || o == "-h"; Run r = run(c, {bash, rel, o}, "y\ny\ny\n", s.chance(3, 4)); snap(RT, "", b); c.note(o + fmt(": exit status %d", r.rc));
      same_but({}, {}, r.out); c.check((r.rc == 0) == h, "usage", fmt("%s: exit status %d\n", o.c_str(), r.rc) + r.out); c.check(r.out.find("uninstall") != std::string::npos, "usage", "no usage message\n" + r.out); c.check(active() == was_active && enabled() == was_enabled, "usage", "the service changed");
    } else if (k == 3) {   // not permitted
      bool un = s.chance(1, 2); Run r = run(c, {bash, rel, un ? "uninstall" : "install"}, "y\ny\ny\n", false); snap(RT, "", b); c.note(fmt("%s without root rights: exit status %d", un ? "uninstall" : "install", r.rc)); same_but({}, {}, r.out);
      c.check(r.rc != 0 && r.rc < 125, "not-root", fmt("without root rights: exit status %d\n", r.rc) + r.out); c.check(active() == was_active && enabled() == was_enabled, "not-root", "the service changed\n" + r.out); c.label("without root rights");
    } else if (k == 4) {   // something is missing
      std::string d = PJ + "/" + (where == 1 ? "preload-src" : "bin"), f = d + (s.chance(1, 2) ? "/preload" : "/preload.conf"), other = PJ + "/preload-src"; if (where == 2) { f = d + "/preload.conf"; }
      syscall(SYS_renameat2, AT_FDCWD, f.c_str(), AT_FDCWD, (f + ".away").c_str(), 0); Run r = run(c, {bash, rel}, "y\ny\ny\n", true); syscall(SYS_renameat2, AT_FDCWD, (f + ".away").c_str(), AT_FDCWD, f.c_str(), 0); snap(RT, "", b); c.note("install with " + f.substr(S.size()) + fmt(" missing: exit status %d", r.rc));
      same_but({}, {}, r.out); c.check(r.rc != 0 && r.rc < 125, "incomplete-package", fmt("something to install is missing: exit status %d\n", r.rc) + r.out); c.check(active() == was_active && enabled() == was_enabled, "incomplete-package", "the service changed\n" + r.out); c.label("incomplete package");
    } else if (k == 5) {   // the user
      switch (s.draw(5)) {
        case 0: rm_rf(RT + CONF); { static const std::vector<std::string> own_ = {"", "\n", "[model]"}; std::string txt = s.chance(1, 3) ? s.pick(own_) : fmt("# the user's own %d\n[model]\ncycle = 20\n", op); mk(CONF, txt, s.chance(1, 3) ? 0600 : 0644); link_conf = false; c.note(fmt("the user writes a configuration of %zu bytes", txt.size())); } break;
        case 1: rm_rf(RT + CONF); mk("/home/conf", fmt("# the user's own %d\n", op)); symlink((RT + "/home/conf").c_str(), (RT + CONF).c_str()); link_conf = true; c.note("the user links the configuration"); break;
        case 2: rm_rf(RT + CONF); link_conf = false; c.note("the user removes the configuration"); break;
        case 3: mk(std::string(STD) + "/preload.state", "PRELOAD\t0.6.4\t100\n", 0660); states++; c.note("there is a state file"); break;
        default: if (has(RT + STD)) { rm_rf(RT + STD); mk(std::string(STD) + "/", "", 0755); } c.note("the state is removed"); break;
      }
      own(RT);
    } else if (k == 6) {   // the installed daemon, started in the installed way
      std::string u = unit.empty() ? "" : read_file(RT + unit); if (!installed || (!unit.empty() && u.empty()) || !has(RT + CONF)) continue;
      std::vector<std::string> av; std::string strict;
      if (init == SYSTEMD) { av = words(key_of(u, "ExecStart")); for (auto* kk : {"StateDirectory", "LogsDirectory"}) for (auto& w : words(key_of(u, kk))) { mk((kk[0] == 'S' ? "/var/lib/" : "/var/log/") + w + "/", "", 0755); } c.check(key_of(u, "Type") != "forking" && key_of(u, "WantedBy") != "", "service", "the service file:\n" + u); }
      else if (init == OPENRC) { av = words(key_of(u, "command") + " " + key_of(u, "command_args")); }
      else av = {BIN, "--foreground"};
      c.check(!av.empty() && has(RT + av[0]), "service-command", "the service runs " + (av.empty() ? "nothing" : av[0]) + "\n" + u); own(RT); a.clear(); snap(RT, "", a); std::string cmd; for (auto& w : av) cmd += w + " "; av[0] = RT + av[0];
      pid_t p = start(av, "/dev/null", S + "/out", "/", true, ""); int st = 0; bool saved = false, ended = false; std::string sf = RT + STD + "/preload.state"; struct stat s0, s1; bool had = !stat(sf.c_str(), &s0);
      double t = 0; for (; t < 20 && !saved && !ended; t += 0.01) {
        timespec ts = {0, 10000000}; syscall(SYS_nanosleep, &ts, nullptr); if (waitpid(p, &st, WNOHANG) == p) { ended = true; break; }
        std::string q = read_file(fmt("/proc/%d/status", (int)p)); size_t z = q.find("SigCgt:"); if (z != std::string::npos && (strtoull(q.c_str() + z + 7, nullptr, 16) >> (SIGUSR2 - 1) & 1)) kill(p, SIGUSR2);
        saved = !stat(sf.c_str(), &s1) && (!had || s1.st_ino != s0.st_ino || s1.st_mtim.tv_nsec != s0.st_mtim.tv_nsec); std::string o = read_file(S + "/out"); if (o.find("failed saving state") != std::string::npos) break;
        snap(RT + "/var/log", "", b); for (auto& x : b) if (x.second.find("failed saving state") != std::string::npos) { t = 100; } b.clear();
      }
      if (!ended) kill(p, SIGTERM); if (!ended && !wait_for(p, 20, st)) c.fail("daemon-stop", "the installed daemon does not stop"); snap(RT, "", b); std::string log = read_file(S + "/out"); for (auto& x : b) if (x.first.compare(0, 9, "/var/log/") == 0 && (!a.count(x.first) || a[x.first] != x.second)) log += x.first + ":\n" + x.second.substr(0, 2000);
      c.note("the daemon runs: " + cmd); c.check(!ended, "daemon", "the installed daemon ended at once: " + cmd + "\n" + log); c.check(saved, "daemon-state", "the installed daemon cannot keep its state: " + cmd + "\n" + log); c.check(WIFEXITED(st) && !WEXITSTATUS(st), "daemon", fmt("the installed daemon ended with status %x\n", st) + log);
      std::string logf; for (size_t i = 1; i + 1 < av.size(); i++) if (av[i] == "--logfile" || av[i] == "-l") logf = av[i + 1]; if (logf.empty()) logf = "/var/log/preload.log"; c.check(b.count(logf) && (!a.count(logf) || a[logf] != b[logf]), "daemon-log", "the installed daemon keeps no log in " + logf + "\n" + log);
      std::set<std::string> ok = {logf}; same_but(ok, {STD}, log);
      if (init == SYSTEMD && key_of(u, "ProtectSystem") == "strict") { std::string rw = " " + key_of(u, "ReadWritePaths") + " "; for (auto& w : words(key_of(u, "StateDirectory"))) rw += "/var/lib/" + w + " "; for (auto& w : words(key_of(u, "LogsDirectory"))) rw += "/var/log/" + w + " "; for (auto& x : b) if (!a.count(x.first) || a[x.first] != x.second) { bool in = false; for (auto& w : words(rw)) if (x.first == w || x.first.compare(0, w.size() + 1, w + "/") == 0) in = true; c.check(in, "service-rights", "the service may not write " + x.first + "\n" + u); } }
      c.label("daemon run"); c.count(1, 1);
    } else if (k == 7) { ship(); own(PJ); c.note(fmt("version %d is shipped", version)); }
    else if (k == 9) {   // built from source, and installed from there
      bool bad = s.chance(1, 6), go = s.chance(2, 3), noinst = s.chance(1, 5), clean = s.chance(1, 8), conf_there = has(RT + CONF); version++; std::string nb = daemon + fmt("version %d built", version), nc = shipped_conf + fmt("# version %d built\n", version), a0 = go ? s.chance(1, 2) ? "y" : "YES" : s.chance(1, 2) ? "n" : "", a1 = s.pick(ans), a2 = s.pick(ans), in = a0 + "\n";
      write_file(S + "/next/preload", nb); chmod((S + "/next/preload").c_str(), 0755); write_file(S + "/next/preload.conf", nc); unlink((S + "/next/broken").c_str()); if (bad) write_file(S + "/next/broken", ""); own(S + "/next");
      bool want_over = conf_there && yes(a1); std::string ena = conf_there ? a2 : a1; if (conf_there) in += a1 + "\n"; if (!unit.empty()) in += ena + "\n"; in += ena + "\n" + ena + "\n";
      std::vector<std::string> av = {bash, s.chance(1, 2) ? "build.sh" : PJ + "/scripts/build.sh"}; if (noinst) av.push_back("--no-install"); if (clean) av.push_back("--clean");
      Run r = run(c, av, in, true); snap(RT, "", b); std::string out = fmt("exit status %d\n", r.rc) + r.out + "\ncalls:\n" + read_file(S + "/svc/calls"), src = has(PJ + "/bin/preload") ? "/bin" : "/preload-src"; c.note(fmt("build%s%s%s, answers '%s' '%s' '%s': exit status %d", noinst ? " --no-install" : "", clean ? " --clean" : "", bad ? " (it does not compile)" : "", a0.c_str(), a1.c_str(), a2.c_str(), r.rc));
      if (clean || bad || noinst || !go) { same_but({}, {}, out); c.check(active() == was_active && enabled() == was_enabled, "build", "the service changed\n" + out); c.check((r.rc == 0) == (clean || !bad), "build", out); c.check(has(PJ + "/preload-src/preload") == !(clean || bad), "build", out); }
      else {
        c.check(r.rc == 0, "build-install", "it failed\n" + out); std::set<std::string> may = {BIN, CONF, STD}; if (link_conf) may.insert("/home/conf"); if (!unit.empty()) may.insert(unit); same_but(may, {}, out);
        if (conf_there && !want_over) c.check(link_conf ? body(b, "/home/conf") == body(a, "/home/conf") : body(b, CONF) == body(a, CONF), "configuration", "the user's configuration was not kept\n" + out);
        post(read_file(PJ + src + "/preload"), read_file(PJ + src + "/preload.conf"), out, conf_there, want_over, no(ena) ? 0 : 1); installed = true; done++; c.label("built and installed");
      }
      where = has(PJ + "/bin/preload") ? has(PJ + "/preload-src/preload") ? 2 : 0 : 1; if (where == 1 && !has(PJ + "/preload-src/preload")) { ship(); own(PJ); }
    }
    else {   // the user starts, stops, enables or disables the service
      if (unit.empty()) continue; bool sw = s.chance(1, 3); const char* o = sw ? was_enabled ? "disable" : "enable" : was_active ? "stop" : "start"; std::string cmd = init == SYSTEMD ? fmt("systemctl %s preload", o) : sw ? fmt("rc-update %s preload default", was_enabled ? "del" : "add") : fmt("rc-service preload %s", o);
      Run r = run(c, {bash, "-c", cmd}, "", true); c.note(fmt("the user: %s: %d", cmd.c_str(), r.rc)); }
    c.check(!has(S + "/svc/strange"), "service-call", "a call to the service manager that it does not know: " + read_file(S + "/svc/strange"));
  }
  c.label(IN[init]); c.label(std::string("package in ") + WH[where]); c.count(0, n); if (done >= 1 && n >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
CheckDef g_check = {"C21", "at least three steps, at least one of which installed or removed something", {{"install", install, 700, 12000}}, {"steps", "daemons run"}, 120};
