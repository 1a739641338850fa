"""C46: content packages keep manifest and files consistent.

Packages live in a scratch directory.  A model (files on disk, resources,
file references, dependencies) is kept next to the package while a history
of operations is run on it; after each step the table of files, the files
on disk and the elements are compared with the model, and after saving the
manifest is read with another parser and the zip with another reader.
Hostile archives are opened with canary files around the directory in which
they are unpacked.
"""

import io
import os
import random
import tempfile
import xml.etree.ElementTree as ET
import zipfile
from collections import Counter
from urllib.parse import quote, unquote, urljoin, urlsplit

from lib import gen
from lib.harness import Workload

META = dict(
    id="C46", title="Content packages keep manifest and files consistent",
    statement="Over any history of adding, copying and deleting files, resources, dependencies and entry points the file table lists exactly the files in "
              "the package and the references to them, deleting a file removes it and every reference, new paths never collide, the saved manifest and "
              "the exported zip say exactly that when read back, and neither archives nor references reach anything outside the package.",
    quantifier=dict(over=["histories", "inputs"], text="histories of up to 25 operations on packages x well-formed and hostile archives"),
    why_tests_cant="the tests use fixed packages and single operations",
    anchors=dict(files=["pyslet/imscpv1p2.py", "pyslet/vfs.py"],
                 mechanism=[dict(name="ContentPackage", where="pyslet/imscpv1p2.py"), dict(name="path_in_path", where="pyslet/imscpv1p2.py"),
                            dict(name="OSFilePath", where="pyslet/vfs.py")],
                 observe_at=["fileTable", "the package directory", "the manifest and archives written"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: online comparison with a reference model, canary files around the sandboxed package, independent XML and zip readers"
LEVEL_NOTE = "the check runs the library on real files in a scratch directory; a stand-in for the random numbers provokes collisions of generated names"
RULE = "each case is a history on one package or one archive; distinct by its steps"
MODULES = ["pyslet/imscpv1p2.py", "pyslet/vfs.py"]
REQUIRE = {"steps": 1500, "referenced": 300, "copied": 120, "deleted": 80, "refused": 200, "saved": 250, "exported": 120, "entry-points": 80, "unique": 100,
           "archives": 150, "hostile": 80, "refused-archives": 40, "outside": 60}

CP = "{http://www.imsglobal.org/xsd/imscp_v1p1}"
NAMES = ["a.txt", "b.html", "B.HTML", "index.xml", "name with space.txt", "caf\u00e9.txt", "\u65e5\u672c.html", "a#b?c.txt", "100%.txt", "x", "noext.", "a.tar.gz",
         "a&b<c>.txt", "it's.txt", "semi;colon=1.txt", "a:b.txt", "IMSManifest2.xml", "%41.txt", "a+b.txt", "~tilde", "back\\slash.txt"]
DIRS = ["", "", "", "sub", "sub/deep", "d\u00e9", "dir with space", "Upper"]


class Scratch(object):
    """A deep scratch directory with canary files all the way up"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.top = os.path.realpath(ctx.tmpdir())
        d = self.top
        for s in "abcdefgh":
            d = os.path.join(d, s)
            os.mkdir(d)
            with open(os.path.join(d, 'canary.txt'), 'wb') as f:
                f.write(b'canary')
        self.dir = d
        self.tmp = os.path.join(d, 'tmp')
        os.mkdir(self.tmp)
        old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        ctx.cleanup(lambda: setattr(tempfile, 'tempdir', old))

    def tree(self, d, skip=()):
        """The contents of a directory: path -> data, or None for directories"""
        result = {}
        for path, dirs, files in os.walk(d):
            dirs[:] = [n for n in dirs if os.path.join(path, n) not in skip]
            rel = os.path.relpath(path, d)
            for n in dirs:
                result[os.path.normpath(os.path.join(rel, n))] = None
            for n in files:
                with open(os.path.join(path, n), 'rb') as f:
                    result[os.path.normpath(os.path.join(rel, n))] = f.read()
        return result

    def outside(self, *inside):
        return self.tree(self.top, inside)


def ignored(path):
    return any(s.startswith('.') for s in path.split('/'))


def file_url(path):
    return 'file://' + quote(path)


def local(path, root):
    """path relative to root, None if outside"""
    p = os.path.normpath(path)
    if p == root:
        return ''
    return p[len(root) + 1:] if p.startswith(root + '/') else None


def href_path(base, href, root):
    """The package path of a reference, None if it isn't to a file of the package"""
    u = urljoin(base, href)
    s = urlsplit(u)
    if s.scheme != 'file' or s.netloc:
        return None
    # parameters of segments are ignored
    segs = [unquote(x.partition(';')[0]) for x in s.path.split('/')]
    return local('/'.join(segs), root)


class Model(object):

    def __init__(self, ctx, pkg, root, scratch):
        self.ctx = ctx
        self.pkg = pkg
        self.root = root
        self.scratch = scratch
        self.files = {k: v for k, v in scratch.tree(root).items() if v is not None and k != 'imsmanifest.xml'}
        # [identifier, element, href, [(href, File)], [dependency], base]
        self.res = []

    def base(self, r):
        b = file_url(self.root + '/imsmanifest.xml')
        return urljoin(b, r['base']) if r['base'] else b

    def table(self):
        t = {p: [] for p in self.files if not ignored(p)}
        for r in self.res:
            for href, f in r['files']:
                p = href_path(self.base(r), href, self.root)
                if p is not None:
                    t.setdefault(p, []).append(f)
        return t

    def check(self, what, table=True):
        ctx = self.ctx
        got = {k: v for k, v in self.scratch.tree(self.root).items() if v is not None and k != 'imsmanifest.xml'}
        ctx.equal(got, self.files, "files", "after %s the files of the package are" % (what,))
        if table:
            t = self.table()
            got = {str(k): v for k, v in self.pkg.fileTable.items()}
            ctx.equal(sorted(got), sorted(t), "table-keys", "after %s the file table lists" % (what,))
            for k in t:
                ctx.check(Counter(id(f) for f in got[k]) == Counter(id(f) for f in t[k]), "table-refs", "after %s the file table lists %s for %s, not %s" %
                          (what, [str(f.href) for f in got[k]], k, [str(f.href) for f in t[k]]))
        for r in self.res:
            ctx.equal([(str(f.href), id(f)) for f in r['e'].File], [(h, id(f)) for h, f in r['files']], "references", "after %s the files of %s are" % (what, r['id']))
            ctx.equal([d.identifierref for d in r['e'].Dependency], r['deps'], "dependencies", "after %s the dependencies of %s are" % (what, r['id']))
            ctx.equal(None if r['e'].href is None else str(r['e'].href), r['href'], "resource-href", "after %s the href of %s is" % (what, r['id']))
            ep = r['e'].get_entry_point()
            want = []
            for h, f in r['files']:
                # hrefs may differ in the escapes of reserved characters
                x, y = urljoin(self.base(r), h), urljoin(self.base(r), r['href'] or '#')
                if canon(x) == canon(y):
                    want.append(f)
                    if x == y:
                        break
            else:
                want.append(None)
            ctx.check(any(ep is f for f in want), "entry-point", "after %s the entry point of %s (%s) is %s" % (what, r['id'], r['href'], ep and ep.href))
            want.remove(None) if None in want else None
            ctx.count("entry-points", 1 if want else 0)
        ctx.count("steps")

    def state(self):
        return [[r['id'], r['href'], [h for h, f in r['files']], r['deps'], r['base']] for r in self.res]

    def adopt(self, pkg):
        """Goes on with the same package opened again"""
        self.pkg = pkg
        es = pkg.manifest.root.Resources.Resource
        self.ctx.equal([e.id for e in es], [r['id'] for r in self.res], "reopened", "the resources of the package read back are")
        for r, e in zip(self.res, es):
            self.ctx.equal([str(f.href) for f in e.File], [h for h, f in r['files']], "reopened", "the files of %s read back are" % r['id'])
            r['e'] = e
            r['files'] = [(h, f) for (h, _), f in zip(r['files'], e.File)]


def canon(u):
    s = urlsplit(u)
    return s.scheme.lower(), s.netloc.lower(), unquote(s.path), s.query


def manifest_state(ctx, data):
    """What a manifest says, by another parser"""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        ctx.fail("manifest-xml", "the manifest can't be read: %s: %r" % (e, data[:500]))
    ctx.equal(root.tag, CP + 'manifest', "manifest-root", "the root of the manifest is")
    result = []
    for r in root.iterfind('%sresources/%sresource' % (CP, CP)):
        result.append([r.get('identifier'), r.get('href'), [f.get('href') for f in r.iterfind(CP + 'file')], [d.get('identifierref') for d in r.iterfind(CP + 'dependency')],
                       r.get('{http://www.w3.org/XML/1998/namespace}base')])
    return result


def new_name(rng, hidden=0.0):
    d = rng.choice(DIRS)
    n = rng.choice(NAMES)
    if rng.random() < 0.3:
        n = gen.pick(rng, "abcxyz") + n
    if rng.random() < hidden:
        n = '.' + n
    return (d + '/' + n) if d else n


def href_for(rng, model, r, path):
    """A reference from a resource to a path of the package"""
    b = model.base(r)
    if rng.random() < 0.15:
        return file_url(os.path.join(model.root, path)), True
    base_dir = unquote(urlsplit(b).path).rsplit('/', 1)[0]
    rel = os.path.relpath(os.path.join(model.root, path), base_dir)
    rel = quote(rel)
    if ':' in rel.split('/')[0]:
        rel = './' + rel
    if rng.random() < 0.1:
        rel = './' + rel
    if rng.random() < 0.1 and '/' in path and not r['base']:
        head, tail = quote(path).split('/', 1)
        rel = head + '/../' + head + '/' + tail
    return rel, False


OUTSIDE = ["../canary.txt", "../../canary.txt", "%2e%2e/canary.txt", "..%2fcanary.txt", "sub/../../canary.txt", "sub/%2E%2E/%2e%2e/canary.txt", "../{name}x/canary.txt"]


def outside_href(rng, scratch, root):
    """A reference to something outside the package"""
    if rng.random() < 0.3:
        return file_url(os.path.join(scratch.dir, 'canary.txt'))
    return rng.choice(OUTSIDE).format(name=quote(os.path.basename(root)))


def open_package(ctx, path=None, **kw):
    from pyslet import imscpv1p2 as imscp
    pkg = imscp.ContentPackage(path) if path is not None else imscp.ContentPackage()
    ctx.cleanup(pkg.close)
    return pkg


def resource_base(ctx, model, r):
    from pyslet import imscpv1p2 as imscp


def edit(ctx):
    from pyslet import imscpv1p2 as imscp
    from pyslet import rfc2396 as uri
    from pyslet import vfs
    rng = ctx.rng
    scratch = Scratch(ctx)
    # stand-in for the random numbers: generated names collide
    real = random.randint
    if rng.random() < 0.5:
        fixed = rng.choice((1, 1, 0, 0xFFFF))
        random.randint = lambda a, b: max(a, min(b, fixed))
        ctx.cleanup(lambda: setattr(random, 'randint', real))
    own = rng.random() < 0.7
    if own:
        root = os.path.join(scratch.dir, rng.choice(('package', 'My Package', 'p\u00e4ck', 'pkg.d')))
        if rng.random() < 0.7:
            os.mkdir(root)
            for i in range(rng.randint(0, 5)):
                p = os.path.join(root, new_name(rng, 0.15))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(b'file %d' % i)
        sibling = root + 'x'
        os.mkdir(sibling)
        with open(os.path.join(sibling, 'canary.txt'), 'wb') as f:
            f.write(b'canary')
        pkg = open_package(ctx, root)
        ctx.equal(pkg.get_package_name(), os.path.basename(root), "name", "the name of the package is")
    else:
        pkg = open_package(ctx)
        root = str(pkg.dPath)
        ctx.check(os.path.dirname(root) == scratch.tmp, "temp", "the new package is in %s" % root)
    sources = os.path.join(scratch.dir, 'sources')
    os.mkdir(sources)
    before = scratch.outside(root)
    if rng.random() < 0.2:
        with open(os.path.join(sources, 'imsmanifest.xml'), 'wb') as f:
            f.write(b'not the manifest')
    for n in rng.sample(NAMES, 6):
        with open(os.path.join(sources, n), 'wb') as f:
            f.write(('source ' + n).encode('utf-8'))
    before = scratch.outside(root)
    m = Model(ctx, pkg, root, scratch)
    log = []
    ctx.witness(root=root, steps=log, files=sorted(m.files))
    m.check('opening')
    packages = [pkg]
    counter = 0
    for step in range(rng.randint(4, 25)):
        op = rng.choice(('resource', 'new', 'new', 'new', 'copy', 'copy', 'copy', 'delete', 'delete', 'deleteref', 'dep', 'entry', 'entry', 'unique', 'disk', 'bad', 'bad', 'save',
                         'export', 'outside'))
        if not m.res:
            op = 'resource'
        r = rng.choice(m.res) if m.res else None
        if op == 'resource':
            e = m.pkg.manifest.root.Resources.add_child(imscp.Resource)
            counter += 1
            e.set_id(m.pkg.manifest.get_unique_id('res'))
            ctx.check(e.id not in [x['id'] for x in m.res], "unique-id", "the id %s is used twice" % e.id)
            e.type = 'webcontent'
            r = {'id': e.id, 'e': e, 'href': None, 'files': [], 'deps': [], 'base': None}
            if rng.random() < 0.25:
                r['base'] = rng.choice(('sub/', 'sub/deep/', 'd%C3%A9/', './', 'sub/x.html', 'http://www.example.com/x/'))
                e.set_base(r['base'])
            m.res.append(r)
            log.append(('resource', r['id'], r['base']))
            m.check(log[-1])
        elif op == 'new':
            inside = urlsplit(m.base(r)).scheme == 'file'
            if rng.random() < 0.2 or not inside:
                href = rng.choice(('http://www.example.com/a.html', 'https://x.org/%7Ea?b=c', 'http://www.example.com/'))
                absolute = False
            else:
                path = rng.choice(sorted(m.table()) or ['a.txt']) if rng.random() < 0.6 else new_name(rng)
                if ignored(path):
                    continue
                href, absolute = href_for(rng, m, r, path)
            log.append(('new', r['id'], href))
            f = m.pkg.new_file(r['e'], uri.URI.from_octets(href))
            got = str(f.href)
            ctx.check(f.parent is r['e'], "new-parent", "the new file element isn't in the resource")
            if absolute:
                ctx.check(href_path(m.base(r), got, root) == path and not urlsplit(got).scheme, "new-absolute", "%s is referred to as %s" % (href, got))
            else:
                ctx.equal(got, href, "new-href", "the new file has href")
            r['files'].append((got, f))
            ctx.count("referenced")
            m.check(log[-1])
        elif op == 'copy':
            if urlsplit(m.base(r)).scheme != 'file':
                continue
            n = rng.choice(sorted(os.listdir(sources)) + ['missing.txt'])
            src = os.path.join(sources, n)
            log.append(('copy', r['id'], n))
            ep = r['e'].get_entry_point()
            d = ''
            if ep is not None:
                p = href_path(m.base(r), str(ep.href), root)
                d = '' if p is None else os.path.dirname(p)
                if p is None and urlsplit(urljoin(m.base(r), str(ep.href))).scheme == 'file':
                    # an entry point outside the package
                    ctx.raises(imscp.CPFilePathError, lambda: m.pkg.file_copy(r['e'], uri.URI.from_octets(file_url(src))), "copy-escapes", "a file was copied next to %s" % ep.href)
                    m.check(log[-1])
                    continue
            taken = set(m.table())
            f = m.pkg.file_copy(r['e'], uri.URI.from_octets(file_url(src)))
            got = str(f.href)
            p = href_path(m.base(r), got, root)
            ctx.check(p is not None, "copy-outside", "the copy of %s is %s" % (n, got))
            ctx.check(p not in taken and p not in m.files and p.lower() != 'imsmanifest.xml', "copy-collides", "%s was copied to %s which is in use" % (n, p))
            ctx.equal(os.path.dirname(p), d, "copy-dir", "%s was copied to the directory" % n)
            ctx.equal(os.path.splitext(p)[1], os.path.splitext(n)[1], "copy-ext", "the extension of the copy of %s is" % n)
            r['files'].append((got, f))
            if os.path.exists(src):
                with open(src, 'rb') as s:
                    m.files[p] = s.read()
            ctx.count("copied")
            m.check(log[-1])
        elif op == 'delete':
            paths = [p for p in m.files if not ignored(p)]
            if not paths:
                continue
            p = rng.choice(paths)
            href = rng.choice((quote(p), './' + quote(p), file_url(os.path.join(root, p))))
            if ':' in href.split('/')[0] and not href.startswith('file:'):
                href = './' + href
            log.append(('delete', href))
            m.pkg.delete_file(href)
            del m.files[p]
            for x in m.res:
                x['files'] = [(h, f) for h, f in x['files'] if href_path(m.base(x), h, root) != p]
            ctx.count("deleted")
            m.check(log[-1])
        elif op == 'deleteref':
            if r['files'] and rng.random() < 0.6:
                h, f = r['files'].pop(rng.randrange(len(r['files'])))
                log.append(('deleteref', r['id'], h))
                r['e'].delete_file(f)
                m.check(log[-1], table=False)
                m.pkg.rebuild_file_table()
                m.check(log[-1])
            elif r['deps']:
                ix = rng.randrange(len(r['deps']))
                log.append(('deletedep', r['id'], r['deps'][ix]))
                r['e'].delete_dependency(r['e'].Dependency[ix])
                del r['deps'][ix]
                m.check(log[-1])
        elif op == 'dep':
            d = r['e'].add_child(imscp.Dependency)
            d.identifierref = rng.choice(m.res)['id']
            r['deps'].append(d.identifierref)
            log.append(('dep', r['id'], d.identifierref))
            m.check(log[-1])
        elif op == 'entry':
            if not r['files']:
                continue
            h, f = rng.choice(r['files'])
            log.append(('entry', r['id'], h))
            r['e'].set_entry_point(f)
            got = str(r['e'].href)
            ctx.check(canon(urljoin(m.base(r), got)) == canon(urljoin(m.base(r), h)), "entry-href", "the entry point %s has become %s" % (h, got))
            r['href'] = got
            m.check(log[-1])
        elif op == 'unique':
            p = rng.choice(sorted(m.table()) or ['a.txt']) if rng.random() < 0.6 else new_name(rng)
            if rng.random() < 0.1:
                p = 'imsmanifest.xml'
            rel = rng.random() < 0.5
            arg = p if rel else os.path.join(root, p)
            log.append(('unique', arg))
            got = str(m.pkg.get_unique_path(arg if rng.random() < 0.5 else vfs.OSFilePath(arg)))
            want = p.lower() if rel else p
            t = m.table()
            if want in t or want == 'imsmanifest.xml':
                ctx.check(got not in t and got != 'imsmanifest.xml', "unique", "the path %s for %s is in use" % (got, arg))
                ctx.check(os.path.splitext(got)[1] == os.path.splitext(want)[1] and not os.path.isabs(got) and local(os.path.join(root, got), root) == got,
                          "unique-form", "the path for %s is %s" % (arg, got))
            else:
                ctx.equal(got, want, "unique-free", "the path for %s, which is free, is" % arg)
            ctx.count("unique")
            m.check(log[-1])
        elif op == 'disk':
            p = new_name(rng, 0.3)
            full = os.path.join(root, p)
            log.append(('disk', p))
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'wb') as f:
                f.write(b'disk %d' % step)
            m.files[p] = b'disk %d' % step
            m.pkg.rebuild_file_table()
            m.check(log[-1])
        elif op == 'bad':
            kind = rng.choice(('outside', 'outside', 'manifest', 'hidden', 'dir', 'http', 'missing'))
            call = rng.choice(('new', 'delete', 'unique'))
            if urlsplit(m.base(r)).scheme != 'file' and call == 'new':
                continue
            if call == 'new' and (kind in ('dir', 'http', 'missing') or r['base']):
                kind = 'outside'
            href = {'outside': outside_href(rng, scratch, root), 'manifest': rng.choice(('imsmanifest.xml', './imsmanifest.xml', 'IMSManifest.xml' if call == 'new' else 'imsmanifest.xml',
                                                                                       file_url(root + '/imsmanifest.xml'))),
                    'hidden': rng.choice(('.hidden.txt', 'sub/.hidden')), 'dir': rng.choice(('sub', 'sub/')), 'http': 'http://www.example.com/a.txt', 'missing': 'no/such/file.txt'}[kind]
            if call == 'new' and r['base'] and not href.startswith('file:'):
                href = file_url(os.path.join(scratch.dir, 'canary.txt'))
            log.append(('bad', call, kind, r['id'], href))
            if kind == 'dir':
                os.makedirs(os.path.join(root, 'sub'), exist_ok=True)
            if kind == 'hidden':
                full = os.path.join(root, href)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, 'wb') as f:
                    f.write(b'hidden')
                m.files[href] = b'hidden'
            if call == 'unique':
                path = rng.choice(('../canary.txt', 'sub/../../x.txt', os.path.join(scratch.dir, 'canary.txt'), root + 'x/canary.txt'))
                log[-1] = log[-1][:4] + (path,)
                ctx.raises(imscp.CPFilePathError, lambda: m.pkg.get_unique_path(path), "unique-outside", "a unique path was found for %s" % path)
            elif call == 'new':
                if kind == 'outside' and href.startswith('..%2f'):
                    href = '../canary.txt'
                ctx.raises(imscp.CPFilePathError, lambda: m.pkg.new_file(r['e'], uri.URI.from_octets(href)), "new-refused", "a new file was made for %s (%s)" % (href, kind))
            else:
                exc = {'dir': imscp.CPFileTypeError, 'http': imscp.CPProtocolError, 'missing': imscp.CPFileTypeError}.get(kind, (imscp.CPFilePathError, imscp.CPFileTypeError))
                ctx.raises(exc, lambda: m.pkg.delete_file(href), "delete-refused", "%s (%s) was deleted" % (href, kind))
            ctx.count("refused")
            m.check(log[-1])
            ctx.check(os.path.exists(os.path.join(root, 'imsmanifest.xml')), "manifest-gone", "the manifest has been removed by %s" % (log[-1],))
        elif op == 'outside':
            # elements made by hand, as they might be read, that refer to files outside
            if urlsplit(m.base(r)).scheme != 'file' or r['base']:
                continue
            href = outside_href(rng, scratch, root)
            f = r['e'].add_child(imscp.File)
            f.href = uri.URI.from_octets(href)
            log.append(('outside', r['id'], href))
            r['files'].append((href, f))
            m.pkg.rebuild_file_table()
            ctx.check(f.package_path(m.pkg) is None, "outside-path", "%s has the path %s in the package" % (href, f.package_path(m.pkg)))
            ctx.count("outside")
            m.check(log[-1])
        elif op == 'save':
            log.append(('save',))
            m.pkg.manifest.update()
            with open(os.path.join(root, 'imsmanifest.xml'), 'rb') as f:
                ctx.equal(manifest_state(ctx, f.read()), m.state(), "manifest", "the manifest written says")
            p2 = open_package(ctx, root if rng.random() < 0.5 else os.path.join(root, 'imsmanifest.xml'))
            ctx.equal(p2.get_package_name(), os.path.basename(root), "name", "the name of the package opened again is")
            m.adopt(p2)
            ctx.count("saved")
            m.check(log[-1])
        else:
            log.append(('export',))
            m.pkg.manifest.update()
            target = os.path.join(scratch.dir, 'export', rng.choice(('out.zip', 'OUT.ZIP', 'o\u00fct.zip', 'pif')))
            os.makedirs(os.path.dirname(target), exist_ok=True)
            m.pkg.export_to_pif(target)
            with open(os.path.join(root, 'imsmanifest.xml'), 'rb') as f:
                mdata = f.read()
            want = {p: d for p, d in m.files.items() if not ignored(p)}
            want['imsmanifest.xml'] = mdata
            with zipfile.ZipFile(target) as z:
                ctx.equal(z.testzip(), None, "zip", "the damaged file of the archive is")
                got = [(i.filename, z.read(i)) for i in z.infolist() if not i.is_dir()]
                dirs = sorted(i.filename for i in z.infolist() if i.is_dir())
            ctx.equal(sorted(got), sorted(want.items()), "zip-files", "the files of the archive are")
            ctx.equal(dirs, sorted(p + '/' for p, d in scratch.tree(root).items() if d is None and not ignored(p)), "zip-dirs", "the directories of the archive are")
            p2 = open_package(ctx, target)
            root2 = str(p2.dPath)
            ctx.check(os.path.dirname(root2) == scratch.tmp and root2 != root, "zip-dir", "the archive was unpacked in %s" % root2)
            ctx.equal(p2.get_package_name(), os.path.basename(target)[:-4] if target.lower().endswith('.zip') else os.path.basename(target), "zip-name", "the name of the archive is")
            ctx.equal(scratch.tree(root2), dict([(p, d) for p, d in scratch.tree(root).items() if not ignored(p)]), "unzipped", "the files unpacked are")
            state = [[e.id, None if e.href is None else str(e.href), [str(f.href) for f in e.File], [d.identifierref for d in e.Dependency]] for e in p2.manifest.root.Resources.Resource]
            ctx.equal(state, [s[:4] for s in m.state()], "unzipped-manifest", "the manifest unpacked says")
            p2.close()
            ctx.check(not os.path.exists(root2), "zip-left", "the unpacked files are left behind in %s" % root2)
            os.remove(target)
            os.rmdir(os.path.dirname(target))
            ctx.count("exported")
            m.check(log[-1])
        ctx.nontrivial(repr((root, log)))
    ctx.equal(scratch.outside(root), before, "outside", "the files outside the package are")
    m.pkg.close()
    pkg.close()
    ctx.equal(os.path.exists(root), own, "closed", "after closing, %s exists" % root)
    ctx.equal({k: v for k, v in scratch.outside(root).items()}, before, "outside", "after closing the files outside the package are")


MANIFEST = '''<?xml version="1.0"?>
<manifest xmlns="http://www.imsglobal.org/xsd/imscp_v1p1" identifier="m"><organizations/><resources>%s</resources></manifest>'''


def archive(ctx):
    """Archives made by other programs, with names of all kinds"""
    from pyslet import imscpv1p2 as imscp
    rng = ctx.rng
    scratch = Scratch(ctx)
    hostile = rng.random() < 0.6
    entries = []
    refs = []
    for i in range(rng.randint(0, 6)):
        n = new_name(rng, 0.1)
        entries.append((n, b'data %d' % i))
        refs.append(n)
    tail = os.path.relpath(scratch.top, '/')
    if hostile:
        evil = ['../evil.txt', 'sub/../../evil.txt', '../canary.txt', '../../canary.txt', '../../../canary.txt', scratch.dir + '/canary.txt', '//' + tail + '/canary.txt', '/evil.txt',
                '..', '../', './../evil.txt', 'sub/..', 'a/./b.txt', 'sub//double.txt', 'sub/../back.txt', '.', './', 'imsmanifest.xml/x', 'sub/', 'sub/', 'sub\\..\\..\\evil.txt',
                '..\\evil.txt', '\\evil.txt', 'C:\\evil.txt', 'C:/evil.txt', 'file', 'file/inside', '../imscpv1p2-x/evil', '...', '.. /x', ' ', '../../../../../../../evil.txt']
        for i in range(rng.randint(1, 3)):
            entries.insert(rng.randint(0, len(entries)), (rng.choice(evil), rng.choice((b'', b'evil', b'evil'))))
    seen = set()
    es = []
    for n, d in entries:
        if n in seen and not (hostile and rng.random() < 0.3):
            continue
        seen.add(n)
        es.append((n, d))
    manifest = MANIFEST % ''.join('<resource identifier="r%d"><file href="%s"/></resource>' % (i, quote('./' + n)) for i, n in enumerate(refs))
    broken = False
    if rng.random() < 0.85:
        if rng.random() < 0.1:
            manifest = rng.choice(('<manifest', '<a/>', '<a xmlns="http://www.imsglobal.org/xsd/imscp_v1p1"/>', '', '<html xmlns="http://www.w3.org/1999/xhtml"/>'))
            broken = True
        es.insert(rng.randint(0, len(es)), ('imsmanifest.xml', manifest.encode('utf-8')))
    stream = rng.random() < 0.3

    class Out(io.BytesIO):
        def seekable(self):
            return not stream

        def seek(self, *args):
            if stream:
                raise io.UnsupportedOperation()
            return io.BytesIO.seek(self, *args)

        def tell(self):
            if stream:
                raise io.UnsupportedOperation()
            return io.BytesIO.tell(self)

    out = Out()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with zipfile.ZipFile(out, 'w', rng.choice((zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED))) as z:
            for n, d in es:
                info = zipfile.ZipInfo(n)
                info.filename = n
                info.compress_type = z.compression
                z.writestr(info, d)
    src = os.path.join(scratch.dir, rng.choice(('in.zip', 'in.pif', 'i n.ZIP')))
    with open(src, 'wb') as f:
        f.write(out.getvalue())
    before = scratch.tree(scratch.top)
    ctx.witness(entries=es, stream=stream, source=src)
    ctx.nontrivial(repr((es, stream)))
    ctx.count("archives")
    if hostile:
        ctx.count("hostile")
    pkg = None
    errors = (imscp.CPException, OSError, ValueError)
    try:
        try:
            pkg = imscp.ContentPackage(src)
        except errors as e:
            error = e
        except Exception as e:
            # errors in the manifest
            if not broken:
                raise
            error = e
    finally:
        if pkg is not None:
            ctx.cleanup(pkg.close)
    if pkg is None:
        ctx.check(hostile or broken, "archive-refused", "the archive was refused: %r" % (error,))
        ctx.equal(scratch.tree(scratch.top), before, "archive-outside", "after the archive was refused (%r) the files are" % (error,))
        ctx.count("refused-archives")
        return
    ctx.check(not broken, "broken-accepted", "a package with the manifest %r was opened" % manifest)
    root = str(pkg.dPath)
    ctx.equal(os.path.dirname(root), scratch.tmp, "archive-dir", "the archive was unpacked in")
    outside = scratch.outside(root)
    outside.pop(os.path.relpath(root, scratch.top), None)
    ctx.equal(outside, before, "archive-outside", "after unpacking the files outside are")
    names = {}
    for n, d in es:
        p = os.path.normpath('/'.join(s for s in n.split('/') if s) or '.')
        names.setdefault(p, []).append((n, d))
    got = scratch.tree(root)
    for p, d in got.items():
        if d is None or p == 'imsmanifest.xml':
            continue
        ctx.check(p in names and d in [x[1] for x in names[p]], "archive-content", "the unpacked file %s contains %r" % (p, d))
    for p, xs in names.items():
        ctx.check(p == '.' or p in got, "archive-missing", "%s hasn't been unpacked" % (p,))
        files = [x for x in xs if not x[0].endswith('/') and not x[0].endswith('/.') and x[0] not in ('', '.')]
        ctx.check(len(files) < 2 or got.get(p) is None, "archive-duplicate", "the archive with two files %s has been accepted" % p)
    want = sorted(p for p, d in got.items() if d is not None and not ignored(p) and p != 'imsmanifest.xml')
    listed = {str(k): [str(f.href) for f in v] for k, v in pkg.fileTable.items()}
    ctx.equal(sorted(k for k in listed if got.get(k) is not None and not ignored(k)), want, "archive-table", "the files listed are")
    if 'imsmanifest.xml' in seen or any(n == 'imsmanifest.xml' for n, d in es):
        for n in refs:
            ctx.check(quote('./' + n) in listed.get(n, []), "archive-refs", "the reference to %s isn't in %s" % (n, listed))
    pkg.close()
    ctx.equal(scratch.tree(scratch.top), before, "archive-left", "after closing the files are")


WORKLOADS = [
    Workload("edit", edit, 500, 8000, cpu=60),
    Workload("archive", archive, 700, 10000, cpu=60),
]
