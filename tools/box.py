"""A private copy of /repo and /verif in which commands see the copies under the real names (bind mounts in a user
namespace of their own): the real trees stay untouched."""
import os, shlex, shutil, subprocess, tempfile
class Box:
    def __init__(self, with_target=False):
        self.dir = tempfile.mkdtemp(prefix="box.", dir="/tmp")
        d = self.dir
        leave = "" if with_target else "--exclude=./target"
        subprocess.run(f"mkdir {d}/repo {d}/verif && cd /repo && tar cf - {leave} . | tar xf - -C {d}/repo && cd /verif && tar cf - --exclude=./.git --exclude=./seeded . | tar xf - -C {d}/verif", shell=True, check=True)
        self.clean()
    def clean(self):
        subprocess.run(f"git -C {self.dir}/repo checkout -q -- . && git -C {self.dir}/repo clean -fdq", shell=True, check=True)
    def apply(self, diff):
        self.clean()
        r = subprocess.run(["git", "-C", f"{self.dir}/repo", "apply", diff], capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
    def run(self, cmd, timeout=1800, env=None):
        inside = f"mount --bind {self.dir}/repo /repo && mount --bind {self.dir}/verif /verif && cd /verif && {cmd}"
        return subprocess.run(["timeout", str(timeout), "unshare", "-Urm", "bash", "-c", inside], capture_output=True, text=True, env=env)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
