"""Environment of the checks: scratch directories, a private PostgreSQL, Django settings."""

import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

REPO = "/repo"
PGBIN = "/usr/lib/postgresql/16/bin"
sys.dont_write_bytecode = True


class Scratch:
    """A scratch directory, with a private PostgreSQL on demand; removed at exit."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="tbverif.", dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.pg = None
        self.pid = os.getpid()
        self.dbs = 0
        atexit.register(self.close)

    def sub(self, name):
        path = os.path.join(self.dir, name)
        os.makedirs(path, exist_ok=True)
        return path

    def _as_pg(self, *args):
        home = os.path.join(self.dir, "pg")
        return subprocess.run(
            ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", f"HOME={home}", *args],
            cwd=home,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )

    def start_pg(self):
        if self.pg:
            return self.pg
        home = os.path.join(self.dir, "pg")
        subprocess.run(["install", "-d", "-o", "postgres", "-g", "postgres", "-m", "700", home], check=True)
        r = self._as_pg(
            f"{PGBIN}/initdb", "-D", f"{home}/data", "-U", "treebeard", "--auth=trust", "-E", "UTF8",
            "--locale=C.UTF-8", "--no-sync",
        )  # fmt: skip
        if r.returncode:
            raise RuntimeError(f"initdb: {r.stdout}")
        options = (
            f"-k {home} -c listen_addresses='' -c fsync=off -c full_page_writes=off -c synchronous_commit=off "
            "-c max_connections=100 -c shared_buffers=64MB -c autovacuum=off -c deadlock_timeout=500ms "
            "-c jit=off"
        )
        with open(os.path.join(self.dir, "pgctl.log"), "w") as out:
            os.chmod(out.name, 0o644)
            r = subprocess.run(
                ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", f"HOME={home}",
                 f"{PGBIN}/pg_ctl", "-w", "-t", "120", "-D", f"{home}/data", "-l", f"{home}/log", "-o", options, "start"],
                cwd=home, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT,
            )  # fmt: skip
        if r.returncode:
            raise RuntimeError(f"pg_ctl: {open(out.name).read()}")
        self.pg = home
        r = self._as_pg(f"{PGBIN}/psql", "-h", home, "-U", "treebeard", "-d", "template1", "-c", "CREATE EXTENSION ltree")
        if r.returncode:
            raise RuntimeError(f"psql: {r.stdout}")
        return self.pg

    def new_db(self):
        """A database of its own on the private server: (host, name)."""
        host = self.start_pg()
        self.dbs += 1
        name = f"w{self.dbs}"
        r = self._as_pg(f"{PGBIN}/createdb", "-h", host, "-U", "treebeard", name)
        if r.returncode:
            raise RuntimeError(f"createdb: {r.stdout}")
        return host, name

    def close(self):
        if os.getpid() != self.pid or not self.dir:
            return
        if self.pg:
            self._as_pg(f"{PGBIN}/pg_ctl", "-w", "-m", "immediate", "-D", f"{self.pg}/data", "stop")
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None


def setup_django(db=None, migrate=(), admin=False):
    """Configure Django; db is None (SQLite in memory) or (host, name) of a PostgreSQL database."""
    sys.path[:0] = [REPO, os.path.dirname(os.path.abspath(__file__))]
    warnings.simplefilter("ignore")
    from django.conf import settings

    conf = (
        {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}
        if db is None
        else {"ENGINE": "django.db.backends.postgresql", "NAME": db[1], "USER": "treebeard", "HOST": db[0]}
    )
    settings.configure(
        DATABASES={"default": conf},
        HARNESS_PG=db is not None,
        SECRET_KEY="x",
        USE_TZ=True,
        DEBUG=False,
        ALLOWED_HOSTS=["*"],
        DEFAULT_AUTO_FIELD="django.db.models.BigAutoField",
        INSTALLED_APPS=[
            "django.contrib.auth", "django.contrib.contenttypes", "django.contrib.sessions", "django.contrib.messages",
            "django.contrib.admin", "treebeard", "vapp",
        ],
        MIDDLEWARE=[
            "django.contrib.sessions.middleware.SessionMiddleware",
            "django.contrib.auth.middleware.AuthenticationMiddleware",
            "django.contrib.messages.middleware.MessageMiddleware",
        ],
        ROOT_URLCONF="vapp.urls",
        STATIC_URL="/static/",
        MIGRATION_MODULES={"vapp": None},
        PASSWORD_HASHERS=["django.contrib.auth.hashers.MD5PasswordHasher"],
        TEMPLATES=[{
            "BACKEND": "django.template.backends.django.DjangoTemplates", "DIRS": [], "APP_DIRS": True,
            "OPTIONS": {"context_processors": [
                "django.contrib.auth.context_processors.auth", "django.template.context_processors.debug",
                "django.template.context_processors.request", "django.contrib.messages.context_processors.messages"]},
        }],
    )  # fmt: skip
    import django

    django.setup()
    import treebeard

    assert os.path.realpath(treebeard.__file__).startswith(REPO + "/"), treebeard.__file__
    from django.core.management import call_command
    from django.db import connection
    from django.apps import apps

    if admin:
        call_command("migrate", run_syncdb=True, verbosity=0)
    else:
        with connection.schema_editor() as ed:
            for model in apps.get_app_config("vapp").get_models():
                if not model._meta.proxy:
                    ed.create_model(model)
