"""V01-V06: versions reported by the package and by the packaging tool.

Git histories are created with git itself in scratch directories; expected
versions are computed from the generated commit graph.
"""
import configparser
import contextlib
import datetime
import importlib.util
import io
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tarfile
import tempfile
import types
import zipfile

from hypothesis import strategies as st

from .core import Failure, HarnessError, Property, REPO, Sub, fail, need
from .model import weighted

STYLES = ['pep440', 'pep440-pre', 'pep440-post', 'pep440-old', 'git-describe',
          'git-describe-long']

GIT_ENV = {k: v for k, v in os.environ.items() if not k.startswith('GIT_')}
GIT_ENV.update(GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1', TZ='UTC',
               LC_ALL='C.UTF-8', GIT_AUTHOR_NAME='T', GIT_AUTHOR_EMAIL='t@example.org',
               GIT_COMMITTER_NAME='T', GIT_COMMITTER_EMAIL='t@example.org')


@contextlib.contextmanager
def scratch():
    """A scratch directory, with an environment in which git depends on
    nothing outside of it.
    """
    d = tempfile.mkdtemp(dir=os.environ.get('PBT_SCRATCH'))
    d = os.path.realpath(d)
    old, cwd = dict(os.environ), os.getcwd()
    os.environ.clear()
    os.environ.update(GIT_ENV, HOME=d, GIT_CEILING_DIRECTORIES=d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(old)
        shutil.rmtree(d, ignore_errors=True)


def git(root, *args, stdin=None):
    p = subprocess.run(('git',) + args, cwd=root, input=stdin, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise HarnessError(f'git {args}: {p.stderr.decode()}')
    return p.stdout.decode()


def project_files():
    """Return {name: content} of the project, tests excluded."""
    files = {}
    for base, dirs, names in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        dirs[:] = [d for d in dirs if d not in ('.git', 'tests', 'build', 'dist', '__pycache__')
                   and not d.endswith('.egg-info')]
        for name in names:
            path = os.path.normpath(os.path.join(rel, name))
            if name.endswith('.py') or rel == '.':
                if name.startswith('test_') or name.endswith('.md') or name.endswith('.pyc'):
                    continue
                with open(os.path.join(REPO, path), 'rb') as f:
                    files[path] = f.read()
    return files


def write_files(root, files):
    for path, content in files.items():
        full = os.path.join(root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as f:
            f.write(content)


def configured(files, **options):
    """Replace options of setup.cfg, None removes an option."""
    text = files['setup.cfg'].decode()
    for key, value in options.items():
        line = '' if value is None else f'{key} = {value}'.rstrip()
        text, n = re.subn(rf'(?m)^{key} *=.*$', lambda mo: line, text)
        if n != 1:
            raise HarnessError(f'setup.cfg: {n} options {key}')
    return {**files, 'setup.cfg': text.encode()}


# ------------------------------------------------------------ code under test

COUNT = [0]


def call(what, function, *args, **kwargs):
    """Call code under test: it must not raise an exception."""
    try:
        return function(*args, **kwargs)
    except Exception as exc:
        raise Failure(f'{what}: {type(exc).__name__}: {exc}')


def load_module(path, what, package=False):
    COUNT[0] += 1
    name = f'scratch_{os.getpid()}_{COUNT[0]}'
    options = {'submodule_search_locations': [os.path.dirname(path)]} if package else {}
    spec = importlib.util.spec_from_file_location(name, path, **options)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    try:
        call(what, spec.loader.exec_module, module)
        # _version is a submodule
        sub = sys.modules.get(name + '._version')
    finally:
        for key in [k for k in sys.modules if k == name or k.startswith(name + '.')]:
            del sys.modules[key]
    return module, sub


def package_versions(root, style=None):
    """Return (__version__, get_versions()) of the package in root; the second
    is None if a style is given and has no effect.
    """
    package, version = load_module(os.path.join(root, 'gcs', '__init__.py'),
                                   'importing the package', True)
    if style is not None:
        original, used = getattr(version, 'get_config', None), []

        def get_config():
            cfg = original()
            cfg.style = style
            used.append(cfg)
            return cfg

        version.get_config = get_config
        versions = call('_version.get_versions', version.get_versions)
        return package.__version__, versions if used else None
    return package.__version__, call('_version.get_versions', version.get_versions)


def load_tool(root):
    return load_module(os.path.join(root, 'versioneer.py'), 'importing versioneer')[0]


def tool_versions(root, verbose=False):
    """Return get_versions() of the packaging tool in root."""
    tool = load_tool(root)
    cwd = os.open('.', os.O_RDONLY)     # it may be removed
    os.chdir(root)
    try:
        versions = call('versioneer.get_versions', tool.get_versions)
        version = call('versioneer.get_version', tool.get_version)
        told = versions
        if verbose:
            told = call('versioneer.get_versions(verbose=True)', tool.get_versions, verbose=True)
    finally:
        os.fchdir(cwd)
        os.close(cwd)
    need(versions['version'] == version, 'versioneer.get_version() is', version, 'get_versions():',
         versions)
    need(told == versions, 'versioneer.get_versions(verbose=True) is', told, 'get_versions():',
         versions)
    return versions


# --------------------------------------------------------------- git histories

def pick(items):
    return weighted(*[(w, st.just(x)) for w, x in items])


# characters that git accepts in names
ODD = [(1, x) for x in ('"', '"x', "'", "'''", "''x'", ',x', ',', '(beta)', ')', '(', '$', '%s', '#1',
                        '&', '{}', '\u00e9', '!', ';x', '+a"b')]

RELEASE = st.builds(
    lambda a, b, rest: f'v{a}.{b}{rest}', st.integers(0, 12), st.integers(0, 12),
    pick([(12, ''), (2, '.1'), (2, 'rc1'), (1, 'a2'), (1, '.post1'), (1, '.dev0'), (3, '+local'),
          (1, '+l.1'), (2, '-rc1'), (2, '-2-g1234567'), (2, '-dirty'), (1, '-dirty-2'), (1, '-1'),
          (1, '_x'), (1, '-gabc')] + ODD))
PEP440_RELEASE = st.builds(
    lambda a, b, rest: f'v{a}.{b}{rest}', st.integers(0, 12), st.integers(0, 12),
    pick([(8, ''), (2, '.1'), (2, 'rc1'), (1, 'a2'), (1, '.post1'), (1, '.dev0'), (3, '+local')]))
OTHER_KNOWN = pick([(2, '1.0'), (2, '3.0'), (2, 'release-1.0'), (2, 'rv1.0'), (2, 'V1.0'), (1, 'x/v1.0'),
              (2, 'beta-v2'), (1, '0v1'), (1, 'nightly'), (1, 'a'), (1, 'stable-2-g1234567'),
              (1, 'x,v3'), (1, '"v4'), (1, '(v5)'), (1, "'v6'")])
# letters before a release name: may look like a part of "tag: "
OTHER = weighted((3, OTHER_KNOWN), (1, st.builds(
    lambda a, b, n: a + b + n, st.sampled_from('tagrHeD0'), st.text('tagv', max_size=2),
    pick([(2, 'v1.0'), (1, 'v0.1'), (1, '3'), (1, 'v9.9')]))))
BRANCH = pick([(4, 'main'), (2, 'master'), (2, 'devel'), (1, 'feature/x'), (1, 'release-2'),
               (1, '2.0'), (1, 'fix-v3'), (1, 'stable'),
               (1, 'a"b'), (1, 'a,b'), (1, '(c)'), (1, "it's")])
TIMES = st.integers(100000000, 4000000000)
ZONES = pick([(4, 0), (2, 120), (1, -330), (1, 345), (1, -720), (1, 840), (1, 60)])

WORK = pick([(6, 'edit'), (4, 'stage'), (4, 'add'), (3, 'delete'), (3, 'chmod'), (6, 'untracked'),
             (4, 'touch'), (3, 'edit-python'), (3, 'restore'), (2, 'stage-unedit'),
             (2, 'rename'), (2, 'untrack'), (2, 'directory')])


def commits(linear_weight):
    def commit(k):
        return st.builds(
            lambda t, z, p, m: {'t': t, 'z': z, 'p': p, 'm': m}, TIMES, ZONES,
            st.just(0) if k == 'linear' else st.integers(0, 3),
            st.just(None) if k == 'linear' else st.none() | st.integers(0, 6))
    return weighted((linear_weight, st.lists(commit('linear'), min_size=1, max_size=14)),
                    (1, st.lists(commit('linear'), min_size=11, max_size=16)),
                    (3, st.lists(commit('graph'), min_size=2, max_size=10)))


def tags(release):
    def tag(names):
        return st.builds(lambda n, at, a: {'name': n, 'at': at, 'annotated': a},
                         names, st.integers(0, 13), st.booleans())
    return st.builds(lambda a, b: a + b,
                     st.lists(tag(release), max_size=3), st.lists(tag(OTHER), max_size=2))


# where and how the checkout is made
SITES = st.fixed_dictionaries({
    'name': pick([(10, 'r')] + [(1, x) for x in (
        'with space', '\u00fc\u03b1', "it's", '%s', 'v1.0', '$HOME', 'a"b', 'x.git', '{}', '#1', '*')]),
    'git': pick([(4, 'plain'), (1, 'worktree'), (1, 'separate')]),
    'abbrev': pick([(4, None), (1, 40), (1, 10), (1, 5)]),
    'config': pick([(6, None), (1, ['log.date', 'relative']), (1, ['color.ui', 'always']),
                    (1, ['format.pretty', 'fuller']), (1, ['log.decorate', 'full']),
                    (1, ['log.showSignature', 'true']), (1, ['core.quotePath', 'false']),
                    (1, ['log.abbrevCommit', 'true']), (1, ['diff.noprefix', 'true']),
                    (1, ['status.showUntrackedFiles', 'all']), (1, ['log.showRoot', 'false']),
                    (1, ['i18n.logOutputEncoding', 'latin-1'])]),
    'signed': pick([(9, False), (1, True)]),
    # commits whose parents were not fetched
    'shallow': weighted((8, st.just([])), (1, st.lists(st.integers(0, 15), min_size=1, max_size=3))),
    'graft': weighted((2, st.just(False)), (1, st.just(True))),     # ... but replaced
    'store': pick([(6, None), (2, 'packed'), (2, 'stale'), (1, 'alternates'), (1, 'sha256')])})
# references that are neither tags nor local branches
REMOTES = st.lists(st.tuples(
    pick([(3, 'remotes/origin/main'), (2, 'remotes/origin/2.0'), (1, 'remotes/upstream/stable'),
          (1, 'remotes/origin/v3.0'), (1, 'remotes/2/main'), (1, 'stash'), (1, 'notes/commits'),
          (1, 'pull/1/head'), (1, 'v1.0'), (1, 'original/refs/tags/v2.0')]),
    st.integers(0, 13)).map(list), max_size=2)


def histories(release=RELEASE, work=True, linear=4):
    return st.fixed_dictionaries({
        'site': SITES,
        'commits': commits(linear),
        'tags': tags(release),
        'branches': st.lists(st.tuples(BRANCH, st.integers(0, 13)).map(list), max_size=2),
        'remotes': weighted((1, st.just([])), (1, REMOTES)),
        'head': weighted((3, st.just(0)), (2, st.integers(0, 13))),
        'on': st.booleans(),
        'work': weighted((2, st.just([])), (3, st.lists(WORK, min_size=1, max_size=3)))
        if work else st.just([]),
    })


class History:
    """Resolved case: the commit graph and references."""

    def __init__(self, case):
        self.commits = []   # (parents, time, zone)
        linear = all(c['p'] == 0 and c['m'] is None for c in case['commits'])
        times = [c['t'] for c in case['commits']]
        if not linear:
            # git describe searches in the order of commit dates
            times.sort()
            times = [t + 60 * i for i, t in enumerate(times)]
        for i, c in enumerate(case['commits']):
            parents = []
            if i:
                parents.append(max(0, i - 1 - c['p']))
                if c['m'] is not None:
                    other = c['m'] % i
                    if other not in parents:
                        parents.append(other)
            self.commits.append((parents, times[i], c['z']))
        n = len(self.commits)
        self.site = case.get('site', {'name': 'r', 'git': 'plain', 'abbrev': None})
        # as far as git knows
        self.shallow = {n - 1 - k % n for k in self.site.get('shallow', [])}
        self.ancestors = []
        for i, (parents, _, _) in enumerate(self.commits):
            parents = [] if i in self.shallow else parents
            self.ancestors.append({i}.union(*(self.ancestors[p] for p in parents)))
        # 0 denotes the last commit
        self.head = n - 1 - case['head'] % n
        self.tags = {}
        for t in case['tags']:
            self.tags.setdefault(t['name'], (n - 1 - t['at'] % n, t['annotated']))
        self.branches = {}
        for name, at in case['branches']:
            self.branches.setdefault(name, n - 1 - at % n)
        self.remotes = {}
        for name, at in case.get('remotes', []):
            self.remotes.setdefault(name, n - 1 - at % n)
        self.on = None
        if case['on']:
            self.on = next((b for b in self.branches if self.branches[b] == self.head), None)
            if self.on is None and 'work' not in self.branches:
                self.on = 'work'
                self.branches['work'] = self.head

    def make(self, d, files):
        """Create the repository in a new directory in d.  Return its path."""
        root = os.path.join(d, self.site['name'])
        os.mkdir(root)
        self.create(root, files, self.site['git'])
        return root

    def create(self, root, files, kind='plain'):
        """Create the repository and check out head.  Sets self.ids."""
        top = root
        if kind == 'worktree':
            top = os.path.join(os.path.dirname(root), 'main repository')
            os.mkdir(top)
        git(top, 'init', '-q', '-b', 'unborn', *(
            ['--separate-git-dir', os.path.join(os.path.dirname(root), 'separate repository')]
            if kind == 'separate' else []), *(
            ['--object-format=sha256'] if self.site.get('store') == 'sha256' else []))
        if self.site['abbrev']:
            git(top, 'config', 'core.abbrev', str(self.site['abbrev']))
        if self.site.get('config'):
            git(top, 'config', *self.site['config'])
        out = io.BytesIO()

        def data(content):
            out.write(b'data %d\n' % len(content) + content + b'\n')

        def who(key, time, zone):
            sign, zone = '-' if zone < 0 else '+', abs(zone)
            out.write(f'{key} T <t@example.org> {time} {sign}{zone // 60:02}{zone % 60:02}\n'
                      .encode())

        for i, (parents, time, zone) in enumerate(self.commits):
            out.write(b'commit refs/heads/import\nmark :%d\n' % (i + 1))
            who('author', time - 5000, 300)
            who('committer', time, zone)
            data(b'commit')
            if parents:
                out.write(b'from :%d\n' % (parents[0] + 1))
                for p in parents[1:]:
                    out.write(b'merge :%d\n' % (p + 1))
            else:
                for path, content in sorted(files.items()):
                    out.write(b'M 100644 inline %s\n' % path.encode())
                    data(content)
                out.write(b'M 100644 inline extra.txt\n')
                data(b'extra\n')
            out.write(b'M 100644 inline data.txt\n')
            data(b'%d\n' % i)
            out.write(b'\n')
        for name, (at, annotated) in self.tags.items():
            if annotated:
                out.write(f'tag {name}\nfrom :{at + 1}\n'.encode())
                who('tagger', self.commits[at][1] + 100, 0)
                data(b'tag')
            else:
                out.write(f'reset refs/tags/{name}\nfrom :{at + 1}\n\n'.encode())
        for name, at in self.branches.items():
            out.write(f'reset refs/heads/{name}\nfrom :{at + 1}\n\n'.encode())
        for name, at in self.remotes.items():
            out.write(f'reset refs/{name}\nfrom :{at + 1}\n\n'.encode())
        out.write(b'done\n')
        marks = os.path.join(top, 'marks')
        git(top, 'fast-import', '--quiet', '--done', '--export-marks=' + marks,
            stdin=out.getvalue())
        self.ids = [None] * len(self.commits)
        with open(marks) as f:
            for line in f:
                mark, sha = line.split()
                self.ids[int(mark[1:]) - 1] = sha
        os.unlink(marks)
        git(top, 'update-ref', '-d', 'refs/heads/import')
        if self.site.get('signed') and self.site.get('store') != 'sha256':
            self.sign(top)
        if self.site.get('store') == 'stale':
            # references that have moved after they were packed
            refs = [line.split() for line in git(
                top, 'for-each-ref', '--format=%(objectname) %(refname)').splitlines()]
            git(top, 'update-ref', '--stdin', stdin=''.join(
                f'update {name} {self.ids[0]}\n' for _, name in refs).encode())
            git(top, 'pack-refs', '--all')
            git(top, 'update-ref', '--stdin', stdin=''.join(
                f'update {name} {sha}\n' for sha, name in refs).encode())
        if kind == 'worktree':
            git(top, 'worktree', 'add', '-q', '-f', '--detach', root, self.ids[self.head])
        if self.on:
            git(root, 'checkout', '-q', '-f', self.on, '--')
        else:
            git(root, 'checkout', '-q', '-f', '--detach', self.ids[self.head])
        common = os.path.join(root, git(root, 'rev-parse', '--git-common-dir').strip())
        if self.site.get('graft'):
            for i in sorted(self.shallow):
                if self.commits[i][0]:
                    git(root, 'replace', '--graft', self.ids[i])
        elif self.shallow:
            with open(os.path.join(common, 'shallow'), 'w') as f:
                f.writelines(sorted(self.ids[i] + '\n' for i in self.shallow))
        if self.site.get('store') == 'packed':
            git(root, 'gc', '-q')
        elif self.site.get('store') == 'alternates':
            store = os.path.join(os.path.dirname(root), 'store')
            os.rename(os.path.join(common, 'objects'), store)
            os.makedirs(os.path.join(common, 'objects', 'info'))
            with open(os.path.join(common, 'objects', 'info', 'alternates'), 'w') as f:
                f.write(store + '\n')

    def sign(self, top):
        """Sign all commits, and have git show signatures, with a stand-in for
        gpg.
        """
        gpg = os.path.join(os.path.dirname(top), 'gpg')
        with open(gpg, 'w') as f:
            f.write('#!/bin/sh\ncat > /dev/null\n'
                    'echo "[GNUPG:] GOODSIG 1234567890ABCDEF T <t@example.org>"\n'
                    'echo "gpg: Signature made Tue 01 Jan 2030 01:02:03 AM UTC" >&2\n'
                    'echo "gpg: Good signature from T" >&2\n')
        os.chmod(gpg, 0o755)
        git(top, 'config', 'gpg.program', gpg)
        git(top, 'config', 'log.showSignature', 'true')
        old = self.ids
        self.ids = []
        for i, (parents, _, _) in enumerate(self.commits):
            raw = git(top, 'cat-file', 'commit', old[i])
            head, message = raw.split('\n\n', 1)
            for p in parents:
                head = head.replace(old[p], self.ids[p])
            head += ('\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n'
                     ' -----END PGP SIGNATURE-----\n\n')
            self.ids.append(git(top, 'hash-object', '-t', 'commit', '-w', '--stdin',
                                stdin=(head + message).encode()).strip())
        for name, (at, annotated) in self.tags.items():
            git(top, 'tag', '-f', *(['-a', '-m', 'tag'] if annotated else []), name, self.ids[at])
        for name, at in self.branches.items():
            git(top, 'update-ref', 'refs/heads/' + name, self.ids[at])
        for name, at in self.remotes.items():
            git(top, 'update-ref', 'refs/' + name, self.ids[at])

    def date(self):
        _, time, zone = self.commits[self.head]
        return datetime.datetime.fromtimestamp(
            time, datetime.timezone(datetime.timedelta(minutes=zone)))

    def nearest(self, prefix):
        """Return (distance, names) of the nearest release tags; names is empty
        if there are none.
        """
        up = self.ancestors[self.head]
        found = {}
        for name, (at, _) in self.tags.items():
            if name.startswith(prefix) and at in up:
                found[name] = len(up - self.ancestors[at])
        if not found:
            return len(up), []
        distance = min(found.values())
        return distance, sorted(n for n in found if found[n] == distance)


def work(root, ops):
    """Modify the working tree.  Return True if a tracked file differs from the
    commit.
    """
    dirty = set()
    data = os.path.join(root, 'data.txt')

    def append(path, text):
        with open(path, 'a') as f:
            f.write(text)

    for k, op in enumerate(ops):
        if op == 'edit':
            append(data, 'changed\n')
            dirty.add('data')
        elif op == 'stage':
            append(data, 'staged\n')
            git(root, 'add', 'data.txt')
            dirty.add('data')
        elif op == 'stage-unedit':
            # the index differs from both the commit and the working tree
            with open(data) as f:
                old = f.read()
            append(data, 'staged and more\n')
            git(root, 'add', 'data.txt')
            with open(data, 'w') as f:
                f.write(old)
            dirty.add('data')
        elif op == 'add':
            append(os.path.join(root, f'new{k}.txt'), 'new\n')
            git(root, 'add', f'new{k}.txt')
            dirty.add('new')
        elif op == 'delete':
            with contextlib.suppress(FileNotFoundError):
                os.unlink(os.path.join(root, 'extra.txt'))
            dirty.add('extra')
        elif op == 'chmod':
            os.chmod(data, 0o755)
            dirty.add('data')
        elif op == 'edit-python':
            append(os.path.join(root, 'gcs_basics.py'), '\n# changed\n')
            dirty.add('python')
        elif op == 'untracked':
            append(os.path.join(root, f'untracked{k}.txt'), 'x\n')
        elif op == 'rename':
            with contextlib.suppress(FileNotFoundError):
                os.replace(os.path.join(root, 'extra.txt'), os.path.join(root, 'renamed.txt'))
                git(root, 'add', '-A', 'extra.txt', 'renamed.txt')
            dirty.add('extra')
        elif op == 'untrack':
            git(root, 'rm', '-q', '--cached', '--ignore-unmatch', 'setup.cfg')
            dirty.add('setup')
        elif op == 'directory':
            os.makedirs(os.path.join(root, 'build', f'{k}'))
            append(os.path.join(root, 'build', 'out.o'), 'x')
        elif op == 'touch':
            os.utime(os.path.join(root, 'setup.cfg'), (10 ** 9 + k, 10 ** 9 + k))
        elif op == 'restore':
            git(root, 'reset', '-q', '--hard')
            dirty.clear()
    return bool(dirty)


def rendered(style, tag, distance, dirty, short):
    """The documented form of each style."""
    post = f'.post{distance}' + ('.dev0' if dirty else '')
    if style == 'pep440':
        local = f'{distance}.g{short}' + ('.dirty' if dirty else '')
        if tag is None:
            return '0+untagged.' + local
        if not distance and not dirty:
            return tag
        return tag + ('.' if '+' in tag else '+') + local
    if style == 'pep440-pre':
        if tag is None:
            return f'0.post.dev{distance}'
        return tag + (f'.post.dev{distance}' if distance else '')
    if style == 'pep440-post':
        if tag is None:
            return f'0{post}+g{short}'
        if not distance and not dirty:
            return tag
        return tag + post + ('.' if '+' in tag else '+') + f'g{short}'
    if style == 'pep440-old':
        if tag is None:
            return '0' + post
        return tag + (post if distance or dirty else '')
    mark = '-dirty' if dirty else ''
    if tag is None:
        return short + mark
    if style == 'git-describe':
        return tag + (f'-{distance}-g{short}' if distance else '') + mark
    assert style == 'git-describe-long', style
    return f'{tag}-{distance}-g{short}{mark}'


def check_date(got, expected, what):
    need(isinstance(got, str), f'{what}: date is', got)
    try:
        # fromisoformat takes dates with spaces as well
        d = re.fullmatch(r'[-0-9]+T[0-9:]+([-+][0-9:]+|Z)', got) and \
            datetime.datetime.fromisoformat(got)
    except ValueError:
        d = None
    if d is None:
        fail(f'{what}: date {got!r} is not in ISO 8601 form')
    need(d == expected and d.utcoffset() == expected.utcoffset(),
         f'{what}: date is {got!r}, the commit date is {expected.isoformat()}')


def check_versions(versions, history, dirty, style, prefix, what):
    """versions describe the checkout."""
    full = history.ids[history.head]
    distance, names = history.nearest(prefix)
    allowed = {rendered(style, n and n[len(prefix):], distance, dirty, full[:k])
               for n in names or [None]
               for k in range(min(history.site['abbrev'] or 7, 7), 41)}
    if versions['version'] not in allowed:
        wanted = [rendered(style, n and n[len(prefix):], distance, dirty, full[:7])
                  for n in names or [None]]
        fail(f'{what}: version is {versions["version"]!r}, expected {" or ".join(wanted)!r}')
    need(versions['full-revisionid'] == full,
         f'{what}: full-revisionid is {versions["full-revisionid"]!r}, expected {full!r}')
    need(versions['dirty'] is dirty, f'{what}: dirty is {versions["dirty"]!r}, expected {dirty}')
    need(versions['error'] is None, f'{what}: error is', versions['error'])
    check_date(versions['date'], history.date(), what)


def describe_labels(ctx, history, dirty, prefix='v'):
    distance, names = history.nearest(prefix)
    if names:
        ctx.label('tagged', 'at the tag' if distance == 0 else 'after the tag')
        if distance >= 10:
            ctx.label('distance of 10 or more')
        if len(names) > 1:
            ctx.label('several nearest tags')
        if any('+' in n for n in names):
            ctx.label('local version tag')
        if any('-' in n for n in names):
            ctx.label('hyphenated tag')
        if any(not history.tags[n][1] for n in names):
            ctx.label('lightweight tag')
    else:
        ctx.label('untagged')
    if dirty:
        ctx.label('dirty')
    if any(len(c[0]) > 1 for c in history.commits):
        ctx.label('merges')
    if any(not n.startswith(prefix) for n in history.tags):
        ctx.label('other tags')
    ctx.label('on a branch' if history.on else 'detached', 'repository: ' + history.site['git'])
    return distance, names


def check_checkout(case, ctx):
    history = History(case['history'])
    style = STYLES[case['style'] % len(STYLES)]
    with scratch() as d:
        root = history.make(d, configured(project_files(), style=style))
        dirty = work(root, case['history']['work'])
        distance, names = describe_labels(ctx, history, dirty)
        ctx.label(style)
        where = case.get('where', 0)
        if where == 1:
            # the current directory is in another repository
            other = os.path.join(d, 'other')
            os.mkdir(other)
            History({'commits': [{'t': 10**9, 'z': 0, 'p': 0, 'm': None}], 'branches': [],
                     'tags': [{'name': 'v99.9', 'at': 0, 'annotated': True}], 'head': 0,
                     'on': True}).create(other, {'x': b''})
            os.chdir(other)
            ctx.label('from another directory')
        elif where == 2:
            # a symbolic link to the checkout
            link = os.path.join(d, 'v5.5')
            os.symlink(root, link)
            root = link
            os.chdir(d)
            ctx.label('through a link')
        elif where == 3:
            os.chdir(os.path.join(root, 'gcs'))
            ctx.label('from within the package')
        elif where == 5:
            # called by a hook of another repository
            other = os.path.join(d, 'other')
            os.mkdir(other)
            git(other, 'init', '-q')
            git(other, 'commit', '-q', '--allow-empty', '-m', 'a')
            git(other, 'tag', 'v99.9')
            repository = os.path.join(other, '.git')
            os.environ.update([
                {'GIT_DIR': repository}, {'GIT_DIR': '.'},
                {'GIT_DIR': repository, 'GIT_WORK_TREE': other},
                {'GIT_INDEX_FILE': os.path.join(repository, 'index')},
                # while objects are received
                {'GIT_DIR': '.', 'GIT_OBJECT_DIRECTORY': './objects/tmp_objdir-incoming-x',
                 'GIT_ALTERNATE_OBJECT_DIRECTORIES': repository + '/objects',
                 'GIT_QUARANTINE_PATH': repository + '/objects/tmp_objdir-incoming-x'},
            ][case['style'] % 5])
            os.chdir(other)
            ctx.label('called by a hook')
        elif where == 7:
            os.environ.update([
                {'GIT_TRACE': '1'}, {'LC_ALL': 'C', 'LANG': 'C'}, {'LANGUAGE': 'de', 'LC_ALL': 'de_DE'},
                {'TZ': 'America/New_York'}, {'GIT_PAGER': '/nonexistent', 'PAGER': 'less'},
                {'GIT_OPTIONAL_LOCKS': '0'}, {'GIT_EXTERNAL_DIFF': 'false'},
                {'GIT_LITERAL_PATHSPECS': '1', 'GIT_NAMESPACE': 'x'},
                {'GIT_AUTHOR_DATE': '@1 +0000', 'GIT_COMMITTER_DATE': '@1 +0000'},
                {'HOME': '/nonexistent', 'XDG_CONFIG_HOME': '/nonexistent'},
                {'GIT_CONFIG_PARAMETERS': "'core.abbrev=20'"}, {'COLUMNS': '5', 'TERM': 'dumb'},
            ][case['style'] // 2 % 12])
            ctx.label('environment')
        elif where == 6:
            gone = os.path.join(d, 'gone')
            os.mkdir(gone)
            os.chdir(gone)
            os.rmdir(gone)
            ctx.label('from a directory that is removed')
        site = root
        if where == 4:
            # the package, not the checkout, is linked
            site = os.path.join(d, 'site')
            os.mkdir(site)
            os.symlink(os.path.join(root, 'gcs'), os.path.join(site, 'gcs'))
            ctx.label('through a link to the package')
        version, versions = package_versions(site)
        check_versions(versions, history, dirty, 'pep440', 'v', 'package')
        need(version == versions['version'], 'gcs.__version__ is', version,
             'get_versions() gives', versions)
        if style != 'pep440':
            _, versions = package_versions(site, style)
            if versions is not None:
                check_versions(versions, history, dirty, style, 'v', f'package, style {style}')
                ctx.label('package in another style')
        versions = tool_versions(root, True)
        check_versions(versions, history, dirty, style, 'v', f'versioneer, style {style}')
        ctx.nontrivial(history.tags or dirty)


CHECKOUTS = st.fixed_dictionaries({
    'history': histories(), 'style': st.integers(0, 23),
    'where': pick([(3, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)])})


def enum_checkouts(tier):
    """Every form of tag x distance x state x style."""
    names = [None, 'v1.2', 'v1.2+local', 'v1.2-rc1', 'v1.2-2-g1234567', 'v1.2-dirty', 'vv1', 'v1-g0',
             'v1.2-dirty-2-gabcdef0-dirty']
    works = [[], ['edit'], ['stage'], ['untracked']]
    k = 0
    for name in names:
        for distance in (0, 1, 10):
            for ops in works:
                k += 1
                tags = [] if name is None else [{'name': name, 'at': distance, 'annotated': k % 2}]
                for style in range(6) if tier != 'quick' else [k % 6]:
                    yield {'history': {
                        'commits': [{'t': 10**9 + 1000 * i, 'z': 60, 'p': 0, 'm': None}
                                    for i in range(distance + 1 + k % 2)],
                        'tags': tags, 'branches': [], 'head': 0, 'on': True, 'work': ops},
                        'style': style}


# ------------------------------------------------------------------- archives

def expansions(decorations, full, date):
    """What git archive puts in place of the placeholders."""
    zone = date.strftime('%z')
    names = ', '.join(decorations)
    return {'%d': f' ({names})' if names else '', '%D': names, '%H': full, '%h': full[:7],
            '%ci': date.strftime('%Y-%m-%d %H:%M:%S ') + zone,
            '%cI': date.isoformat(), '%ct': str(int(date.timestamp())),
            '%cd': date.strftime('%a %b %-d %H:%M:%S %Y ') + zone}


def expand(text, table):
    """Expand as git archive does; return None if a placeholder is not known."""
    def replace(mo):
        parts = re.split(r'(%(?:c.|[A-Za-z]))', mo.group(1))
        return ''.join(table[p] if p.startswith('%') else p for p in parts)
    try:
        return re.sub(r'\$Format:([^$\n]*)\$', replace, text)
    except KeyError:
        return None


NAMES = weighted((6, RELEASE), (4, OTHER), (1, st.just('v1.0')), (1, st.just('v1.0rc1')),
                 (1, st.just('v10.0')), (1, st.just('v9.0')))
HEADS = pick([(3, None), (2, 'HEAD'), (3, 'HEAD -> {b}'), (1, 'HEAD, {b}')])
ARCHIVE_BRANCHES = weighted((5, BRANCH), (2, RELEASE), (1, st.just('origin/main')),
                            (1, st.just('origin/v2.0')), (1, st.just('v-next')),
                            (1, st.just('origin/HEAD')))


def release_of(tag_names, marked):
    """Return names that count as release tags, in sorted order."""
    return sorted(n for n in tag_names
                  if n.startswith('v') and (marked or re.search(r'\d', n)))


def check_keywords(case, ctx):
    """Expanded keywords written into _version.py as git archive does."""
    marked = case['marked']
    decorations, branches = [], list(case['branches'])
    if case['head']:
        b = branches.pop(0) if branches else 'main'
        decorations.extend(case['head'].format(b=b).split(', '))
    names = list(dict.fromkeys(case['tags']))
    entries = [('tag: ' if marked else '') + n for n in names] + branches
    order = case['order']
    for k, e in enumerate(entries):
        at = order[k % len(order)] % (len(decorations) + 1) if order else len(decorations)
        decorations.insert(max(at, 1 if case['head'] else 0), e)
    if marked:
        release = release_of(names, True)
        if not names:
            # archives of git < 1.8.3 look the same: names of branches that look
            # like release tags may be taken for them
            branches_count = release_of(
                [x for x in decorations if not x.startswith('HEAD')], False)
            if branches_count:
                ctx.label('ambiguous: unmarked release name')
                release = None
    else:
        release = release_of([x for x in decorations], False)
    full = case['full']
    date = datetime.datetime.fromtimestamp(
        case['t'], datetime.timezone(datetime.timedelta(minutes=case['z'])))
    files = project_files()
    table = expansions(decorations, full, date)
    for name in list(files):
        if name.endswith('_version.py'):
            text = expand(files[name].decode(), table)
            if text is None:
                ctx.label('unsupported placeholder')
                return
            files[name] = text.encode()
    with scratch() as d:
        root = os.path.join(d, 'r')
        os.mkdir(root)
        write_files(root, files)
        if case['inside']:
            # keywords count, whatever the state of a surrounding repository
            git(d, 'init', '-q')
        version, versions = package_versions(root)
        need(version == versions['version'], 'gcs.__version__ is', version, versions)
        check_archived(versions, release, full, date, 'package')
        tool = tool_versions(root, True)
        check_archived(tool, release, full, date, 'versioneer')
    ctx.label('marked tags' if marked and names else 'unmarked', f'{len(release or ())} releases')
    if release and len(release) < len(names) + len(branches):
        ctx.label('release among other names')
    ctx.nontrivial(len(decorations) > 1)


def check_archived(versions, release, full, date, what):
    if release is None:
        pass
    elif release:
        need(versions['version'] == release[0][1:],
             f'{what}: version is {versions["version"]!r}, expected {release[0][1:]!r}')
        need(versions['error'] is None, f'{what}: error is', versions['error'])
        check_date(versions['date'], date, what)
    else:
        need(versions['version'] == '0+unknown',
             f'{what}: version is {versions["version"]!r}, expected "0+unknown"')
    need(versions['full-revisionid'] == full,
         f'{what}: full-revisionid is {versions["full-revisionid"]!r}, expected {full!r}')
    need(not versions['dirty'], f'{what}: dirty is', versions['dirty'])


KEYWORDS = st.fixed_dictionaries({
    'marked': weighted((3, st.just(True)), (1, st.just(False))),
    'head': HEADS, 'branches': st.lists(ARCHIVE_BRANCHES, max_size=3),
    'tags': weighted((1, st.just([])), (4, st.lists(NAMES, min_size=1, max_size=4))),
    'order': st.lists(st.integers(0, 6), max_size=4),
    'full': st.text('0123456789abcdef', min_size=40, max_size=40),
    't': TIMES, 'z': ZONES, 'inside': st.booleans()})


def export(root, target, what='HEAD'):
    os.mkdir(target)
    p = subprocess.run(['git', 'archive', what], cwd=root, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise HarnessError(p.stderr.decode())
    with tarfile.open(fileobj=io.BytesIO(p.stdout)) as tar:
        tar.extractall(target, filter='data')


def archived_release(history):
    tags = [n for n, (at, _) in history.tags.items() if at == history.head]
    if tags:
        return release_of(tags, True)
    branches = [b for b, at in history.branches.items() if at == history.head]
    branches += [b.removeprefix('remotes/') if b.startswith('remotes/') else 'refs/' + b
                 for b, at in history.remotes.items() if at == history.head]
    if release_of(branches, False):
        return None
    return []


def check_archive(case, ctx):
    """Trees exported with git archive."""
    history = History(case)
    with scratch() as d:
        root = history.make(d, project_files())
        target = os.path.join(d, 'gcs-9.9')
        export(root, target)
        release = archived_release(history)
        _, versions = package_versions(target)
        check_archived(versions, release, history.ids[history.head], history.date(), 'package')
        versions = tool_versions(target)
        check_archived(versions, release, history.ids[history.head], history.date(), 'versioneer')
    ctx.label(f'{len(release or ())} releases')
    ctx.nontrivial(history.tags)


ARCHIVES = histories(work=False)


def check_triple(case, ctx):
    """Three double quotes end the string that git archive writes names to."""
    with scratch() as d:
        root = os.path.join(d, 'r')
        os.mkdir(root)
        History({'commits': [{'t': 10**9, 'z': 0, 'p': 0, 'm': None}], 'branches': [], 'head': 0,
                 'tags': [{'name': case['name'], 'at': 0, 'annotated': False}],
                 'on': True}).create(root, project_files())
        target = os.path.join(d, 'export')
        export(root, target)
        what = f'export of a commit with tag {case["name"]}'
        try:
            version, _ = package_versions(target)
        except Failure as exc:
            ctx.known('triple-quote', f'{what}: {exc}')
        else:
            need(version == case['name'][1:], f'{what}: version is', version)
    ctx.nontrivial(True)


# ---------------------------------------------------------------- agreement

def check_agree(case, ctx):
    """Package and packaging tool, in checkouts and exported trees."""
    history = History(case['history'])
    with scratch() as d:
        root = history.make(d, project_files())
        first = root
        dirty = work(root, case['history']['work'])
        describe_labels(ctx, history, dirty)
        kind = case['kind']
        if kind == 'archive':
            root = os.path.join(d, 'gcs-2.3')
            export(first, root)
        elif kind == 'plain':
            if os.path.isdir(os.path.join(root, '.git')):
                shutil.rmtree(os.path.join(root, '.git'))
            else:
                os.unlink(os.path.join(root, '.git'))
        ctx.label(kind)
        version, versions = package_versions(root)
        tool = tool_versions(root, True)
        need(version == versions['version'], 'gcs.__version__ is', version, versions)
        need(tool == versions, 'versioneer reports', tool, 'the package', versions)
        # the version file that replaces _version.py
        path = os.path.join(root, 'gcs', '_version.py')
        module = load_tool(root)
        call('write_to_version_file', module.write_to_version_file, path, tool)
        back = call('versions_from_file', module.versions_from_file, path)
        need(back == tool, 'versions_from_file gives', back, 'written were', tool)
        version, versions = package_versions(root)
        need(version == tool['version'] and versions == tool,
             'the package with version file reports', versions, 'written were', tool)
        again = tool_versions(root)
        need(again == tool, 'versioneer reports', again, 'the version file has', tool)
        ctx.nontrivial(history.tags or dirty)


AGREE = st.fixed_dictionaries({
    'history': histories(),
    'kind': pick([(3, 'checkout'), (3, 'archive'), (1, 'plain')])})

TEXT = st.text(st.characters(min_codepoint=0x20, max_codepoint=0x2fff,
                             categories=['L', 'N', 'P', 'S', 'Zs'])
               | st.sampled_from('\'"\\'), max_size=20)


def check_version_file(case, ctx):
    """Any version information survives the version file."""
    versions = {'version': case['version'], 'full-revisionid': case['full'],
                'dirty': case['dirty'], 'error': case['error'], 'date': case['date']}
    with scratch() as d:
        files = project_files()
        write_files(d, files)
        path = os.path.join(d, 'gcs', '_version.py')
        if case['crlf']:
            write_files(d, {'gcs/_version.py': b''})
        tool = load_tool(d)
        call('write_to_version_file', tool.write_to_version_file, path, dict(versions))
        if case['crlf']:
            with open(path, 'rb') as f:
                content = f.read()
            with open(path, 'wb') as f:
                f.write(content.replace(b'\n', b'\r\n'))
        back = call('versions_from_file', tool.versions_from_file, path)
        need(back == versions, 'versions_from_file gives', back, 'written were', versions)
        need(tool_versions(d, True) == versions, 'versioneer.get_versions() differs from the file')
        version, got = package_versions(d)
        need(version == versions['version'] and got == versions, 'the package reports', got,
             'written were', versions)
    ctx.nontrivial(versions['error'] or versions['dirty'] or not versions['version'].isascii())


VERSION_FILES = st.fixed_dictionaries({
    'version': weighted((3, RELEASE.map(lambda s: s[1:])), (2, TEXT)),
    'full': st.none() | st.text('0123456789abcdef', min_size=40, max_size=40),
    'dirty': st.sampled_from([None, False, True]),
    'error': st.none() | st.sampled_from(
        ['no suitable tags', 'unable to compute version',
         "unable to parse git-describe output: 'x-y'", "tag 'x' doesn't start with prefix 'v'"])
    | TEXT,
    'date': st.none() | st.just('2020-01-02T03:04:05+0200'),
    'crlf': st.booleans()})


# ------------------------------------------------------------------- degrade

def check_degrade(case, ctx):
    """Whatever is wrong with the surroundings, importing works."""
    fault = case['fault']
    with scratch() as d:
        if fault == 'call fails' and case['call'].startswith('rev-list'):
            # commits are counted when there are no tags
            case['history']['tags'] = []
        history = History(case['history'])
        if fault in ('no repository', 'no commits'):
            root = os.path.join(d, history.site['name'])
            write_files(root, project_files())
            if fault == 'no commits':
                git(root, 'init', '-q')
        elif fault.startswith(('bad ', 'broken ', 'missing ', 'other ', 'bare', 'future ')):
            # in files of the repository
            root = os.path.join(d, 'r')
            os.mkdir(root)
            history.create(root, project_files())
            work(root, case['history']['work'])
        else:
            root = history.make(d, project_files())
            work(root, case['history']['work'])
        either = False  # whether the fault may have no effect
        usual = package_versions(root)[1]
        hit = os.path.join(d, 'hit')
        bindir = os.path.join(d, 'bin')
        os.mkdir(bindir)
        if fault == 'no git':
            os.environ['PATH'] = bindir
        elif fault == 'git not executable':
            with open(os.path.join(bindir, 'git'), 'w') as f:
                f.write('#!/bin/sh\n')
            os.environ['PATH'] = bindir
        elif fault == 'git unusable':
            path = os.path.join(bindir, 'git')
            kind = case['code'] % 6
            if kind == 0:
                os.mkdir(path)
            elif kind == 1:
                os.symlink('git', path)
            else:
                with open(path, 'wb') as f:
                    # not an executable; without a header; of a missing
                    # interpreter; nothing; the directory on the path is a file
                    f.write([b'\x7fELF nonsense', b'\0\1\2', b'#!/nonexistent/sh\n', b''][kind - 2])
                os.chmod(path, 0o755)
            os.environ['PATH'] = bindir if case['code'] % 7 else path
        elif fault == 'git fails':
            with open(os.path.join(bindir, 'git'), 'w') as f:
                f.write(f'#!/bin/sh\necho trouble >&2\nexit {case["code"]}\n')
            os.chmod(os.path.join(bindir, 'git'), 0o755)
            os.environ['PATH'] = bindir + os.pathsep + os.environ['PATH']
        elif fault == 'git crashes':
            with open(os.path.join(bindir, 'git'), 'w') as f:
                f.write('#!/bin/sh\necho v1.0-0-g1234567\nkill -9 $$\n')
            os.chmod(os.path.join(bindir, 'git'), 0o755)
            os.environ['PATH'] = bindir + os.pathsep + os.environ['PATH']
        elif fault == 'call fails':
            # some calls of git, the others work
            real, code = shutil.which('git'), case['code']
            end = {0: f'exit {code}', 1: 'kill -9 $$',
                   2: "printf 'v1\\351-0-gabcdef0'; exit 0",
                   3: f'{real} "$@"; exit {code}'}[code % 4]
            with open(os.path.join(bindir, 'git'), 'w') as f:
                f.write(f'#!/bin/sh\ncase "$*" in {case["call"]}) : > {hit}; {end};; esac\n'
                        f'exec {real} "$@"\n')
            os.chmod(os.path.join(bindir, 'git'), 0o755)
            os.environ['PATH'] = bindir + os.pathsep + os.environ['PATH']
            either = code % 4 == 2
        elif fault == 'odd description':
            text = ODD[case['code'] % len(ODD)]
            with open(os.path.join(bindir, 'git'), 'w') as f:
                f.write(f'#!/bin/sh\ncase "$*" in describe*) echo "{text}"; exit 0;; esac\n'
                        f'exec {shutil.which("git")} "$@"\n')
            os.chmod(os.path.join(bindir, 'git'), 0o755)
            os.environ['PATH'] = bindir + os.pathsep + os.environ['PATH']
        elif fault == 'unreadable name':
            git(root, 'update-ref', b'refs/tags/v0\xe9', 'HEAD')
            either = True
        elif fault == 'bad index':
            with open(os.path.join(root, '.git', 'index'), 'r+b') as f:
                f.truncate(case['code'] % 12)
        elif fault == 'missing commit':
            for name in set(history.ids) - {history.ids[history.head]}:
                path = os.path.join(root, '.git', 'objects', name[:2], name[2:])
                if os.path.exists(path):
                    os.unlink(path)
            either = True
        elif fault == 'bad gitfile':
            os.rename(os.path.join(root, '.git'), os.path.join(d, 'moved'))
            with open(os.path.join(root, '.git'), 'w') as f:
                f.write(['gitdir: ../gone\n', 'nonsense\n', ''][case['code'] % 3])
        elif fault == 'other owner':
            # git does not use repositories of others
            either = True
            if os.getuid() == 0:
                for path in (root, os.path.join(root, '.git')):
                    os.chown(path, 65534, 65534)
                either = False
        elif fault in ('bad config', 'bare', 'future format'):
            with open(os.path.join(root, '.git', 'config'), 'a') as f:
                f.write({'bad config': '[core\n', 'bare': '[core]\nbare = true\n',
                         'future format': '[core]\nrepositoryformatversion = 99\n'}[fault])
        elif fault == 'bad shallow':
            with open(os.path.join(root, '.git', 'shallow'), 'w') as f:
                f.write('nonsense\n')
        elif fault == 'broken repository':
            os.unlink(os.path.join(root, '.git', 'HEAD'))
        elif fault == 'broken head':
            with open(os.path.join(root, '.git', 'HEAD'), 'w') as f:
                f.write('ref: refs/heads/gone\n')
        for what, get in [('package', lambda: package_versions(root)[1]),
                          ('versioneer', lambda: tool_versions(root, True))]:
            versions = get()
            effect = True
            if fault == 'call fails':
                effect = os.path.exists(hit)
                if effect:
                    os.unlink(hit)
            if fault == 'odd description':
                need(versions['version'] in ('unknown', '0+unknown')
                     and isinstance(versions['error'], str) and versions['error']
                     and versions['full-revisionid'] in (None, history.ids[history.head])
                     and not versions['dirty'] and versions['date'] is None,
                     f'{what}: git describe prints {text!r}, reported is', versions)
                continue
            if not effect or either and versions['version'] != '0+unknown':
                need(versions == usual, f'{what}: version is {versions}, expected {usual}')
                ctx.label('no effect')
                continue
            ctx.label('effect ' + fault
                      + (' ' + case['call'] if fault == 'call fails' else ''))
            need(versions['version'] == '0+unknown', f'{what}: version is', versions['version'])
            need(isinstance(versions['error'], str) and versions['error'],
                 f'{what}: error is', versions['error'])
            need(not versions['dirty'] and versions['full-revisionid'] is None
                 and versions['date'] is None, f'{what} reports', versions)
    ctx.label(fault)
    ctx.nontrivial(fault != 'no repository')


# what git describe does not print, or only for tags without the prefix
ODD = ['v1.0-x', 'v1.0-3', 'v1.0-3-h1234567', 'v1.0-x-g1234567', 'v1.0-3-g12345-', '-', '-dirty-',
       '1.0-3-g1234567', 'release-1.0-0-g1234567-dirty', 'hint: use - instead', 'v1.0-3-gXYZ']


FAULTS = st.fixed_dictionaries({
    'fault': pick([(7, 'call fails'), (2, 'missing commit'), (2, 'odd description')] + [(1, x) for x in (
        'no repository', 'no commits', 'no git', 'git not executable', 'git unusable',
        'git fails', 'git crashes',
        'broken repository', 'broken head', 'unreadable name', 'bad index', 'bad gitfile',
        'other owner', 'bad config', 'bare', 'future format', 'bad shallow')]),
    'call': st.sampled_from(['describe*', 'rev-parse*HEAD', 'rev-list*', '*show*', '*HEAD*',
                             'rev-parse*dir', '*']),
    'code': st.integers(1, 255), 'history': histories()})


# -------------------------------------------------------------- distributions

def limit_cpu():
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))


def run_python(root, what, *args):
    env = dict(os.environ, CONDA_BUILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
               PYTHONPATH='')
    try:
        p = subprocess.run([sys.executable, *args], cwd=root, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240,
                           preexec_fn=limit_cpu)
    except subprocess.TimeoutExpired:
        fail(f'{what} does not end')
    if p.returncode != 0:
        fail(f'{what} fails: ' + ' | '.join(p.stdout.decode(errors='replace').split('\n')[-4:]))
    return p.stdout.decode(errors='replace')


def check_modules(root, target, what):
    """All modules of the package are in the distribution."""
    source = os.path.join(root, 'gcs')
    for name in sorted(os.listdir(source)):
        if name.endswith('.py') and name != '_version.py':
            path = os.path.join(target, 'gcs', name)
            need(os.path.exists(path), what, 'does not contain', 'gcs/' + name)
            with open(path, 'rb') as f, open(os.path.join(source, name), 'rb') as g:
                need(f.read() == g.read(), what, 'changes', 'gcs/' + name)


REPORT = (
    'import site, sys, json; site.addsitedir(sys.argv[1]); import gcs, gcs._version as v; '
    'print(json.dumps([gcs.__file__, gcs.__version__, v.get_versions()]))')

EDITABLE = ('import sys; from setuptools import build_meta;'
            ' sys.argv[1:], d = [], sys.argv[1]; build_meta.build_editable(d)')


def install_editable(root, target):
    os.mkdir(target)
    run_python(root, 'an editable installation', '-c', EDITABLE, target)
    for name in os.listdir(target):
        if name.endswith('.whl'):
            with zipfile.ZipFile(os.path.join(target, name)) as z:
                z.extractall(target)


def installed_versions(target):
    """Return what another process reports of the package installed in target."""
    path, version, versions = json.loads(
        run_python(os.path.dirname(target), 'importing the installed package', '-c', REPORT, target)
        .strip().split('\n')[-1])
    need(version == versions['version'], 'the installed package has version', version, versions)
    return os.path.realpath(path), versions


def check_distribution(case, ctx):
    """build_py and sdist record the version of the source tree."""
    from packaging.version import Version
    history = History(case['history'])
    editable = []
    elsewhere = case.get('elsewhere')

    def setup_py(root, what, *args):
        if elsewhere:
            path = os.path.join(root, 'setup.py')
            if elsewhere == 'relative':
                path = os.path.relpath(path, d)
            return run_python(d, what + ' from another directory', path, *args)
        return run_python(root, what, 'setup.py', *args)

    with scratch() as d:
        root = history.make(d, project_files())
        first = root
        dirty = work(root, case['history']['work'])
        describe_labels(ctx, history, dirty)
        if case['archive']:
            ctx.label('from an archive')
            root = os.path.join(d, 'export')
            export(first, root)
        _, source = package_versions(root)
        if not case['archive']:
            check_versions(source, history, dirty, 'pep440', 'v', 'package')
        style = case.get('style')
        if style and not case['archive'] and all(
                re.fullmatch(r'v[0-9.]+(rc\d|a\d)?', n) for n in history.tags if n[0] == 'v'):
            # the version information is in another style
            with open(os.path.join(root, 'setup.cfg'), 'rb') as f:
                files = configured({'setup.cfg': f.read()}, style=style)
            write_files(root, files)
            run_python(root, 'versioneer.py setup', 'versioneer.py', 'setup')
            _, source = package_versions(root)
            dirty = True
            ctx.label(style)
        for k, step in enumerate(case['steps']):
            if step == 'editable' and set('{}') & set(root):
                step = 'version'    # setuptools formats the path of the source tree
            ctx.label(step)
            if step == 'build':
                lib = os.path.join(d, f'lib{k}')
                setup_py(root, 'setup.py build_py', '-q', 'build_py',
                           '--build-lib', lib)
                check_modules(root, lib, 'the built package')
                _, versions = package_versions(lib)
                need(versions == source, 'the built package reports', versions,
                     'the source tree', source)
            elif step == 'wheel':
                dist = os.path.join(d, f'dist{k}')
                setup_py(root, 'setup.py bdist_wheel', '-q', 'bdist_wheel', '-d', dist,
                           '-b', os.path.join(d, f'bdist{k}'))
                names = os.listdir(dist)
                need(len(names) == 1, 'bdist_wheel creates', names)
                target = os.path.join(d, f'wheel{k}')
                with zipfile.ZipFile(os.path.join(dist, names[0])) as z:
                    z.extractall(target)
                shutil.rmtree(os.path.join(root, 'build'), ignore_errors=True)
                check_modules(root, target, 'the wheel')
                _, versions = package_versions(target)
                need(versions == source, 'the wheel reports', versions, 'the source tree', source)
                need(Version(names[0].split('-')[1]) == Version(source['version']),
                     'the wheel is named', names[0], 'the source tree reports', source)
            elif step == 'install':
                target = os.path.join(d, f'install{k}')
                setup_py(root, 'setup.py install', '-q', 'install', '--root', target,
                           '--install-lib', '/lib')
                shutil.rmtree(os.path.join(root, 'build'), ignore_errors=True)
                check_modules(root, os.path.join(target, 'lib'), 'the installed package')
                _, versions = installed_versions(os.path.join(target, 'lib'))
                need(versions == source, 'the installed package reports', versions,
                     'the source tree', source)
            elif step == 'editable':
                target = os.path.join(d, f'editable{k}')
                install_editable(root, target)
                path, versions = installed_versions(target)
                need(path == os.path.realpath(os.path.join(root, 'gcs', '__init__.py')),
                     f'the editable package is {path}, the source tree {root}')
                need(versions == source, 'the editable package reports', versions,
                     'the source tree', source)
                if root == first:
                    editable.append(target)
            elif step == 'version':
                out = setup_py(root, 'setup.py version', 'version')
                need(f'Version: {source["version"]}' in out.split('\n'),
                     'setup.py version does not report', source['version'], 'but', out)
            else:
                dist = os.path.join(d, f'dist{k}')
                setup_py(root, 'setup.py sdist', '-q', 'sdist', '-d', dist)
                names = os.listdir(dist)
                need(len(names) == 1, 'sdist creates', names)
                target = os.path.join(d, f'unpacked{k}')
                with tarfile.open(os.path.join(dist, names[0])) as tar:
                    tar.extractall(target, filter='data')
                target = os.path.join(target, os.listdir(target)[0])
                check_modules(root, target, 'the source distribution')
                _, versions = package_versions(target)
                need(versions == source, 'the source distribution reports', versions,
                     'the source tree', source)
                need(tool_versions(target) == source,
                     'versioneer in the source distribution differs from the source tree')
                with open(os.path.join(target, 'PKG-INFO')) as f:
                    mo = re.search(r'(?m)^Version: (.*)$', f.read())
                need(mo and Version(mo.group(1)) == Version(source['version']),
                     'PKG-INFO has', mo and mo.group(1), 'the source tree', source)
            _, after = package_versions(root)
            need(after == source, f'{step} changed the version of the source tree to', after,
                 'from', source)
            if step == 'sdist':
                root = target
        if not case['archive']:
            # the source tree follows later commits
            git(first, 'commit', '-q', '--allow-empty', '-a', '-m', 'later')
            head = git(first, 'rev-parse', 'HEAD').strip()
            _, versions = package_versions(first)
            need(versions['full-revisionid'] == head and versions['dirty'] is False,
                 f'after {case["steps"]} and a commit, the source tree reports', versions,
                 'the commit is', head)
            need(tool_versions(first) == versions,
                 'after a commit, versioneer reports', tool_versions(first), 'the package', versions)
            for target in editable[:1]:
                need(installed_versions(target)[1] == versions, 'after a commit, the editable'
                     ' installation reports', installed_versions(target)[1], 'the source tree',
                     versions)
            for k in [k for k, step in enumerate(case['steps']) if step == 'build'][:1]:
                # into the same directory as before
                lib = os.path.join(d, f'lib{k}')
                setup_py(first, 'setup.py build_py', '-q', 'build_py',
                           '--build-lib', lib)
                _, built = package_versions(lib)
                need(built == versions, 'built again after a commit, the package reports', built,
                     'the source tree', versions)
                ctx.label('built again')
        ctx.nontrivial(history.tags or dirty)


DISTRIBUTIONS = st.fixed_dictionaries({
    'history': histories(PEP440_RELEASE, linear=12),
    'archive': weighted((3, st.just(False)), (1, st.just(True))),
    'style': pick([(4, None), (1, 'pep440-pre'), (1, 'pep440-post'), (1, 'pep440-old')]),
    'elsewhere': pick([(6, None), (1, 'absolute'), (1, 'relative')]),
    'steps': st.lists(st.sampled_from(['build', 'sdist', 'sdist', 'wheel', 'version',
                                       'install', 'editable']), min_size=1,
                      max_size=2)})


def check_linked(case, ctx):
    """Trees made for distributions may consist of hard links."""
    history = History(case['history'])
    with scratch() as d:
        root = history.make(d, project_files())
        work(root, case['history']['work'])
        path = os.path.join(root, 'gcs', '_version.py')
        target = os.path.join(d, 'tree', 'gcs')
        os.makedirs(target)
        os.link(path, os.path.join(target, '_version.py'))
        os.link(os.path.join(root, 'gcs', '__init__.py'), os.path.join(target, '__init__.py'))
        with open(path, 'rb') as f:
            before = f.read()
        versions = tool_versions(root)
        tool = load_tool(root)
        with contextlib.redirect_stdout(io.StringIO()):
            call('versioneer.write_to_version_file', tool.write_to_version_file,
                 os.path.join(target, '_version.py'), versions)
        with open(path, 'rb') as f:
            need(f.read() == before, 'writing the version file of a tree of hard links overwrites'
                 ' the version file of the source tree')
        _, got = package_versions(os.path.join(d, 'tree'))
        need(got == versions, 'the linked tree reports', got, 'the source tree', versions)
        ctx.nontrivial(history.tags)


FREEZERS = {'build_exe': ['cx_Freeze', 'cx_Freeze.dist'],
            'py2exe': ['py2exe', 'py2exe.distutils_buildexe']}


def check_frozen(case, ctx):
    """Programs made by cx_Freeze or py2exe contain the version; stand-ins of both report what they
    find in the source tree.
    """
    history = History(case['history'])
    kind, style = case['kind'], case['style']
    with scratch() as d:
        root = history.make(d, configured(project_files(), style=style))
        work(root, case['history']['work'])
        if case['archive']:
            ctx.label('from an archive')
            export(root, os.path.join(d, 'export'))
            root = os.path.join(d, 'export')
        else:
            # the version file as versioneer writes it
            run_python(root, 'versioneer.py setup', 'versioneer.py', 'setup')
        _, source = package_versions(root)
        status = None if case['archive'] else git(root, 'status', '--porcelain')
        found = []

        class Freezer:
            def run(self):
                found.append(package_versions(root)[1])

        modules = {name: types.ModuleType(name) for name in FREEZERS[kind]}
        for name, module in modules.items():
            module.__path__ = []
            setattr(module, kind, Freezer)
        cwd = os.open('.', os.O_RDONLY)
        os.chdir(root)
        sys.modules.update(modules)
        try:
            tool = load_tool(root)
            with contextlib.redirect_stdout(io.StringIO()):
                commands = call('versioneer.get_cmdclass', tool.get_cmdclass)
                need(kind in commands and issubclass(commands[kind], Freezer),
                     f'with {modules.popitem()[0]}, versioneer has the commands', sorted(commands))
                for _ in range(1 if case['archive'] else case['times']):
                    call(f'{kind}.run', commands[kind]().run)
        finally:
            for name in FREEZERS[kind]:
                sys.modules.pop(name, None)
            os.fchdir(cwd)
            os.close(cwd)
        need(found and all(v == source for v in found), f'{kind} finds the versions', found,
             'the source tree reports', source)
        _, after = package_versions(root)
        if not case['archive']:     # there, the keywords are gone
            need(git(root, 'status', '--porcelain') == status, f'{kind} changes the source tree')
            need(after == source, f'{kind} changed the version of the source tree to', after,
                 'from', source)
            git(root, 'commit', '-q', '--allow-empty', '-a', '-m', 'later')
            head = git(root, 'rev-parse', 'HEAD').strip()
            _, after = package_versions(root)
            need(after['full-revisionid'] == head and after['dirty'] is False,
                 f'after {kind} and a commit, the source tree reports', after, 'the commit is', head)
    ctx.label(kind)
    ctx.nontrivial(history.tags)


FROZEN = st.fixed_dictionaries({
    'history': histories(linear=12), 'kind': st.sampled_from(sorted(FREEZERS)),
    'archive': weighted((4, st.just(False)), (1, st.just(True))),
    'style': pick([(4, 'pep440'), (1, 'pep440-pre'), (1, 'git-describe')]),
    'times': pick([(3, 1), (1, 2)])})


# ------------------------------------------------------------------ installer

SNIPPET = re.compile(r'(?m)^from \._version import get_versions\n__version__ = .*\ndel .*\n')


def check_install(case, ctx):
    """versioneer setup writes a runtime module for the configuration."""
    history = History(case['history'])
    style = STYLES[case['style'] % len(STYLES)]
    prefix, parent = case['prefix'], case['parent']
    missing = case['missing']
    option = style if case['style'] < len(STYLES) else [None, 'default'][case['style'] % 2]
    if option != style:
        style = 'pep440'
    files = configured(project_files(), style=option, tag_prefix=prefix, parentdir_prefix=parent)
    base = case.get('base', '')
    if base:
        # the package is in a subdirectory
        files = {base + '/' + name if name.startswith('gcs/') else name: content
                 for name, content in files.items()}
        files = configured(files, versionfile_source=base + '/gcs/_version.py')
        ctx.label('package in ' + base)
        base += '/'
    init, version = base + 'gcs/__init__.py', base + 'gcs/_version.py'
    prefix = '' if prefix in ('""', "''") else prefix
    if case['verbose']:
        files['setup.cfg'] = files['setup.cfg'].replace(b'[versioneer]\n',
                                                        b'[versioneer]\nverbose = 1\n')
    if 'version' in missing:
        files.pop(version)
    if 'attributes' in missing:
        files.pop('.gitattributes', None)
    elif 'other attributes' in missing:
        files['.gitattributes'] = b'*.png binary\n'
    elif 'plain attributes' in missing:
        files['.gitattributes'] = version.encode() + b' text\n'
    elif 'similar attributes' in missing:
        files['.gitattributes'] = version.encode() + b'.in export-subst\n'
    elif 'attributes mention' in missing:
        files['.gitattributes'] = (f'# {version} export-subst\nx/{version} export-subst\n'
                                   f'*.py diff=python\n').encode()
    elif 'attributes without line end' in missing:
        files['.gitattributes'] = b'*.txt text\n*.png binary'
    elif 'empty attributes' in missing:
        files['.gitattributes'] = b''
    if 'manifest' in missing:
        files.pop('MANIFEST.in', None)
    elif 'manifest mentions' in missing:
        files['MANIFEST.in'] = (f'# include versioneer.py {version}\ninclude versioneer.py.txt'
                                f' x{version}\nexclude {version}~\n'
                                'recursive-include docs *.py\n').encode()
    elif 'manifest without line end' in missing:
        files['MANIFEST.in'] = b'include README.md\ninclude extra.txt'
    elif 'empty manifest' in missing:
        files['MANIFEST.in'] = b''
    if 'snippet' in missing:
        files[init] = b'"""Package."""\n'
    elif 'unused' in missing:
        files[init] = b'# _version.py defines get_versions\n__all__ = []\n'
    elif 'documented' in missing:
        files[init] = (b'"""Package.\n\n__version__ is set by get_versions.\n"""\n'
                       b'# from ._version import get_versions\n')
    elif 'snippet and line end' in missing:
        files[init] = b'x = 1'
    elif 'empty' in missing:
        files[init] = b''
    with scratch() as d:
        root = history.make(d, files)
        run_python(root, 'versioneer.py setup', 'versioneer.py', 'setup')
        installed = {}
        for name in (version, init, '.gitattributes', 'MANIFEST.in'):
            path = os.path.join(root, name)
            need(os.path.exists(path), 'versioneer setup does not write', name)
            with open(path, 'rb') as f:
                installed[name] = f.read()
        manifest = [name for line in installed['MANIFEST.in'].decode().split('\n')
                    if line.startswith('include ') for name in line.split()[1:]]
        need('versioneer.py' in manifest and version in manifest,
             'MANIFEST.in is', installed['MANIFEST.in'])
        for name in installed:
            # what was there before is kept
            lines = installed[name].split(b'\n')
            if name != version and name in files:
                need(all(line in lines for line in files[name].split(b'\n')),
                     'versioneer setup changes', name, 'from', files[name], 'to', installed[name])
        status = git(root, 'status', '--porcelain', '--untracked-files=no')
        dirty = bool(status)
        untracked = [line[3:] for line in git(root, 'status', '--porcelain').split('\n')
                     if line.startswith('??')]
        need(not set(untracked) & set(installed), 'versioneer setup does not add', untracked)
        changed = bool(missing) or style != 'pep440' or prefix != 'v' or parent != ''
        if changed:
            ctx.label('changes files')
        what = f'after versioneer setup, style {style}, tag prefix {prefix!r}:'
        _, versions = package_versions(root + '/' + base)
        check_versions(versions, history, dirty, style, prefix, what + ' package')
        need(tool_versions(root) == versions, what, 'versioneer and package differ')
        # once more
        run_python(root, 'versioneer.py setup', 'versioneer.py', 'setup')
        for name in installed:
            with open(os.path.join(root, name), 'rb') as f:
                need(f.read() == installed[name], 'versioneer setup, run again, changes', name)
        # exported
        git(root, 'add', '-u')
        git(root, 'commit', '-q', '--allow-empty', '-m', 'install')
        git(root, 'tag', prefix + '7.7')
        head = git(root, 'rev-parse', 'HEAD').strip()
        target = os.path.join(d, 'export')
        export(root, target)
        _, versions = package_versions(target + '/' + base)
        need(versions['version'] == '7.7' and versions['full-revisionid'] == head, what,
             'the exported package reports', versions)
        need(tool_versions(target) == versions, what, 'versioneer and exported package differ')
        # neither repository nor keywords
        target = os.path.join(d, case['dir'], *['src', 'python'][:case['depth']])
        shutil.copytree(root, target, ignore=shutil.ignore_patterns('.git'))
        _, versions = package_versions(target + '/' + base)
        need(tool_versions(target) == versions, what, 'versioneer and plain tree differ')
        expected = '0+unknown'
        if parent and case['dir'].startswith(parent):
            expected = case['dir'][len(parent):]
            ctx.label('version from directory name')
        need(versions['version'] == expected, what, 'the tree in directory', case['dir'],
             'reports', versions['version'])
    ctx.label(*missing)
    ctx.nontrivial(changed)


INSTALLS = st.fixed_dictionaries({
    'history': st.fixed_dictionaries({
        'site': SITES,
        'commits': commits(12),
        'tags': st.lists(st.builds(
            lambda n, at, a: {'name': n, 'at': at, 'annotated': a},
            pick([(2, 'v1.0'), (1, 'v2.0+x'), (2, '1.0'), (2, 'rel-1.0'), (1, 'rel-2.0-rc1'), (1, 'rel/3.0')]),
            st.integers(0, 5), st.booleans()), max_size=3),
        'branches': st.just([]), 'head': st.just(0), 'on': st.booleans(), 'work': st.just([])}),
    'style': st.integers(0, 7), 'verbose': pick([(3, False), (1, True)]),
    'prefix': pick([(3, 'v'), (1, ''), (1, '""'), (1, "''"), (2, 'rel-'), (1, 'rel/')]),
    'parent': pick([(2, ''), (2, 'gcs-'), (1, None)]),
    'dir': st.sampled_from(['gcs-4.5', 'gcs-0.1.dev0', 'other', 'None-1.0']),
    'depth': pick([(3, 0), (1, 1), (1, 2)]),
    'base': pick([(4, ''), (1, 'src'), (1, 'src/python')]),
    'missing': st.lists(st.sampled_from(['version', 'attributes', 'other attributes',
                                         'plain attributes', 'similar attributes',
                                         'attributes without line end', 'manifest',
                                         'manifest without line end', 'snippet', 'unused',
                                         'snippet and line end', 'documented', 'empty', 'empty',
                                         'manifest mentions', 'attributes mention',
                                         'empty manifest', 'empty attributes']), max_size=3, unique=True)})


def run_setup(root):
    """Run versioneer setup, return whether it succeeds, and its output."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='')
    p = subprocess.run([sys.executable, 'versioneer.py', 'setup'], cwd=root, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       preexec_fn=limit_cpu)
    out = p.stdout.decode(errors='replace')
    need('Traceback' not in out and p.returncode >= 0, 'versioneer setup fails:', out[-500:])
    return p.returncode == 0, out


SETUP_PY = ['import versioneer\n', 'version = versioneer.get_version()\n',
            'commands = versioneer.get_cmdclass()\n']


def check_unconfigured(case, ctx):
    """versioneer setup explains what is missing in setup.cfg and setup.py."""
    history = History(case['history'])
    files = project_files()
    before = case['before'].replace('\n\n', '\n')
    present = case['cfg'] != 'missing'
    text = ''
    if present:
        text = before + {'none': '', 'empty': '[versioneer]\n', 'partial':
                         '[versioneer]\nstyle = pep440\ntag_prefix = v\n',
                         'disabled': '#[versioneer]\n#VCS = git\n'}[case['cfg']] + case['after']
        files['setup.cfg'] = text.encode()
    else:
        del files['setup.cfg']
    with scratch() as d:
        root = history.make(d, files)
        cfg = os.path.join(root, 'setup.cfg')
        for k in range(2):
            ok, out = run_setup(root)
            need(not ok, f'versioneer setup succeeds with setup.cfg {text!r}')
            need('setup.cfg' in out and '[versioneer]' in out,
                 'versioneer setup does not tell what is missing:', out)
            with open(cfg) as f:
                got = f.read()
            need(got.startswith(text), 'versioneer setup changes setup.cfg from', text, 'to', got)
            parser = configparser.ConfigParser()
            try:
                parser.read_string(got)
            except configparser.Error as exc:
                fail(f'versioneer setup writes a setup.cfg that cannot be read: {exc}')
            need(parser.has_section('versioneer'), 'after versioneer setup, setup.cfg is', got)
            if k or case['cfg'] in ('empty', 'partial'):
                need(got == text, 'versioneer setup, run again, changes setup.cfg from', text, 'to', got)
            text = got
            status = [line[3:] for line in git(root, 'status', '--porcelain').split('\n') if line]
            need(set(status) <= {'setup.cfg'}, 'without configuration, versioneer setup changes',
                 status)
        # as the sample says
        style = case['style']
        options = {'VCS': 'git', 'style': style, 'versionfile_source': 'gcs/_version.py',
                   'versionfile_build': 'gcs/_version.py', 'tag_prefix': 'v', 'parentdir_prefix': ''}
        if case['cfg'] in ('empty', 'partial'):
            head, tail = text.split('[versioneer]\n', 1)
            tail = re.sub(r'(?m)^(style|tag_prefix) = .*\n', '', tail)
            text = head + '[versioneer]\n' + ''.join(
                f'{k} = {v}\n' for k, v in options.items()) + tail
        else:
            for key, value in options.items():
                head, found, tail = text.rpartition(f'#{key} =')
                need(found, 'the sample in setup.cfg lacks', key)
                text = head + f'{key} = {value}' + tail[tail.index('\n'):]
        write_files(root, {'setup.cfg': text.encode()})
        lines = [x for k, x in enumerate(SETUP_PY) if k not in case['without']]
        if case['setter']:
            lines.append(case['setter'] + '\n')
        good = len(lines) == 3 and not case['setter']
        if not good:
            with open(os.path.join(root, 'setup.py'), 'rb') as f:
                setup_py = f.read()
            write_files(root, {'setup.py': ''.join(lines).encode()})
            ok, out = run_setup(root)
            need(not ok, 'versioneer setup accepts setup.py with', lines)
            need('setup.py' in out, 'versioneer setup does not tell what is wrong with setup.py:', out)
            write_files(root, {'setup.py': setup_py})
            ctx.label('setup.py')
        ok, out = run_setup(root)
        need(ok, 'with the sample options in setup.cfg, versioneer setup fails:', out)
        git(root, 'add', '-A')
        git(root, 'commit', '-q', '--allow-empty', '-m', 'configured')
        git(root, 'tag', 'v7.8')
        _, versions = package_versions(root)
        need(versions['version'] == '7.8' and not versions['dirty'],
             'with the sample options in setup.cfg, the package reports', versions)
        need(tool_versions(root) == versions, 'with the sample options, versioneer reports',
             tool_versions(root), 'the package', versions)
    ctx.label(case['cfg'])
    ctx.nontrivial(present)


UNCONFIGURED = st.fixed_dictionaries({
    'history': st.fixed_dictionaries({
        'site': SITES, 'commits': commits(3), 'tags': st.just([]), 'branches': st.just([]),
        'head': st.just(0), 'on': st.just(True), 'work': st.just([])}),
    'cfg': st.sampled_from(['missing', 'none', 'none', 'empty', 'partial', 'disabled']),
    'before': st.sampled_from(['', '[flake8]\nmax-line-length = 99\n', '# versioneer\n',
                               '[metadata]\ndescription = [versioneer] VCS\n', '\n']),
    'after': st.sampled_from(['', '[x]\ny = 1\n', '[x]\ny = 1']),
    'style': st.sampled_from(['pep440', 'git-describe', 'pep440-old']),
    'without': st.lists(st.integers(0, 2), max_size=2, unique=True),
    'setter': pick([(4, ''), (1, 'versioneer.VCS = "git"'),
                    (1, 'versioneer.versionfile_source = "x"')])})


GIT = 'git 2.43 of this sandbox; histories of at most 16 commits created with git fast-import'


def case_linked():
    return st.fixed_dictionaries({'history': histories()})


PROPERTIES = {p.id: p for p in [
    Property('V01', 'the history has tags or the working tree is modified', [
        Sub('checkout', check_checkout, lambda: CHECKOUTS, quick=1000,
            enum=enum_checkouts, cost=4),
    ], [GIT, 'tag names longer than the prefix',
        'several nearest release tags: any of them']),
    Property('V02', 'several decorations, or the history has tags', [
        Sub('keywords', check_keywords, lambda: KEYWORDS, quick=3000),
        Sub('triple', check_triple, quick=0, enum=lambda tier: [{'name': 'v1.0"""x'}]),
        Sub('archive', check_archive, lambda: ARCHIVES, quick=400, cost=4),
    ], [GIT, 'without tag markers, names with the release prefix and a digit count as tags;'
        ' branches that are named so, when there are no tags, are not judged']),
    Property('V03', 'the history has tags, the working tree is modified, or the version'
             ' information is unusual', [
                 Sub('agree', check_agree, lambda: AGREE, quick=500, cost=4),
                 Sub('file', check_version_file, lambda: VERSION_FILES, quick=1500),
             ], [GIT, 'version information without control characters and characters outside of the'
                 ' basic plane']),
    Property('V04', 'there is a repository', [
        Sub('faults', check_degrade, lambda: FAULTS, quick=600, cost=4),
    ], [GIT]),
    Property('V05', 'the history has tags or the working tree is modified', [
        Sub('distribution', check_distribution, lambda: DISTRIBUTIONS, quick=120, cost=20,
            thorough=1500),
        Sub('linked', check_linked, case_linked, quick=60, cost=4),
        Sub('frozen', check_frozen, lambda: FROZEN, quick=40, cost=6),
    ], [GIT, 'setuptools of this sandbox, CONDA_BUILD=1 (setup.py otherwise needs the missing'
        ' requirements.txt and network access)', 'PEP 440 release tags']),
    Property('V06', 'the configuration differs from the present one, or files are missing', [
        Sub('install', check_install, lambda: INSTALLS, quick=200, cost=10, thorough=4000),
        Sub('unconfigured', check_unconfigured, lambda: UNCONFIGURED, quick=60, cost=6),
    ], [GIT]),
]}
