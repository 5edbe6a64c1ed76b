"""Builds the simulator binaries from /repo's working tree.  Objects are cached
by the hash of their preprocessed-input files under /verif/build."""
import glob, hashlib, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
CXX = '/usr/bin/g++'
SUT_FLAGS = ('-std=c++14 -fno-sized-deallocation -g -w -include numeric -O1 -fsanitize=thread '
             '-fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -fno-inline-small-functions').split()
SIM_FLAGS = '-std=c++17 -O2 -g -Wall -Wno-unused-result'.split()
MEM_FLAGS = '-std=c++17 -O2 -g -fno-builtin -fno-tree-loop-distribute-patterns'.split()
ITK_INC = ('-I/usr/lib/x86_64-linux-gnu/include -I/usr/include/hdf5/serial -I/usr/include/gdcm-3.0 '
           '-isystem /usr/include/ITK-5.3').split()


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])
    return r.stdout


def gen_headers():
    """The two configured headers of the build, and the ITK support header."""
    d = os.path.join(BUILD, 'gen')
    for sub, name, proj in (('FileUtilities', 'FileUtilitiesConfigure.h', 'FILEUTILITIES'),
                            ('TestingFramework', 'TestFrameworkConfigure.h', 'TESTINGFRAMEWORK')):
        src = os.path.join(REPO, sub, name + '.in')
        if not os.path.exists(src):
            continue
        t = open(src).read().replace('@PROJECT_NAME@', proj).replace('@BUILD_SHARED_LIBS@', '0')
        write(os.path.join(d, sub, name), t)
    src = os.path.join(REPO, 'itktf', 'itktfRegressionSupport.h.in')
    if os.path.exists(src):
        t = open(src).read()
        t = re.sub(r'@[A-Za-z_]+@', '/itkdata', t)
        write(os.path.join(d, 'itktf', 'itktfRegressionSupport.h'), t)
    return d


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    os.write(fd, text.encode())
    os.close(fd)
    os.replace(tmp, path)


def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            if {'_build', '.git', 'tests', 'Testing'} & set(os.path.relpath(root, d).split('/')):
                continue
            for f in sorted(files):
                if f.endswith(('.h', '.txx', '.hxx', '.in', '.hpp')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def obj(src, flags, hh, tag):
    key = sha(open(src, 'rb').read(), src, ' '.join(flags), hh)
    o = os.path.join(BUILD, 'obj', '%s-%s-%s.o' % (tag, os.path.basename(src), key))
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = '%s.%d.o' % (o[:-2], os.getpid())
        run([CXX] + flags + ['-c', src, '-o', tmp])
        os.replace(tmp, o)
    return o


def build(which='sim'):
    """Returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    gen = gen_headers()
    hh = headers_hash([os.path.join(REPO, 'FileUtilities'), os.path.join(REPO, 'TestingFramework'),
                       os.path.join(REPO, 'itktf'), gen])
    hs = sha(headers_hash([os.path.join(HERE, 'sim')]), hh)
    inc = ['-I' + REPO, '-I' + gen, '-I' + os.path.join(gen, 'TestingFramework'), '-I' + os.path.join(REPO, 'TestingFramework'),
           '-I' + os.path.join(gen, 'FileUtilities'), '-I' + os.path.join(REPO, 'FileUtilities')]
    jobs = []
    sut = sorted(glob.glob(os.path.join(REPO, 'TestingFramework', '*.cpp')) + glob.glob(os.path.join(REPO, 'FileUtilities', '*.cpp')))
    for s in sut:
        jobs.append((s, SUT_FLAGS + inc, hh, 'sut'))
    simdir = os.path.join(HERE, 'sim')
    common = ['core', 'seams', 'model', 'rt', 'exec', 'testkind', 'gen', 'main']
    libs = ['-lexpat', '-lpthread', '-ldl']
    if which == 'sim':
        for c in ('cxx', 'cpp', 'cc'):
            p = os.path.join(REPO, 'TestingFramework', 'tfPipeToXML.' + c)
            if os.path.exists(p):
                jobs.append((p, SUT_FLAGS + inc + ITK_INC + ['-Dmain=tfPipeToXML_main'], hh, 'sut'))
        extra = [x for x in ('props_core', 'props_more', 'pipekind', 'querykind') if os.path.exists(os.path.join(simdir, x + '.cpp'))]
        sim_inc = inc + ITK_INC
    else:
        for s in sorted(glob.glob(os.path.join(REPO, 'itktf', '*.cxx'))):
            tool = ['-Dmain=itktfImageCompare_main'] if os.path.basename(s) == 'itktfImageCompare.cxx' else []
            jobs.append((s, SUT_FLAGS + inc + ITK_INC + ['-I' + os.path.join(REPO, 'itktf'), '-I' + os.path.join(gen, 'itktf')] + tool, hh, 'sut'))
        extra = ['props_itk', 'itkkind']
        sim_inc = inc + ITK_INC + ['-I' + os.path.join(REPO, 'itktf'), '-I' + os.path.join(gen, 'itktf')]
        libs = [] + libs
    for c in common + extra:
        fl = SIM_FLAGS + sim_inc
        if c == 'itkkind':  # instantiates templates of the code under test
            fl = [f for f in SUT_FLAGS if f != '-std=c++14'] + ['-std=c++17'] + sim_inc
        jobs.append((os.path.join(simdir, c + '.cpp'), fl, hs, 'sim'))
    jobs.append((os.path.join(simdir, 'mem.cpp'), MEM_FLAGS, 'x', 'sim'))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    if which != 'sim':
        libs = itk_libs() + libs + ['-lpng']
    out = os.path.join(BUILD, '%s-%s' % (which, sha(*objs, *libs)))
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        run([CXX, '-g', '-rdynamic', '-o', tmp] + objs + libs)
        os.replace(tmp, out)
    return out


def itk_libs():
    d = '/usr/lib/x86_64-linux-gnu'
    names = ['ITKCommon', 'itksys', 'ITKIOImageBase', 'ITKIOMeta', 'ITKMetaIO', 'ITKIOPNG', 'itkzlib', 'itkpng', 'ITKStatistics', 'ITKTransform', 'itkvnl_algo', 'itkvnl', 'itkv3p_netlib', 'itkvcl', 'ITKMesh', 'ITKSpatialObjects', 'ITKPath', 'ITKLabelMap', 'ITKQuadEdgeMesh', 'ITKOptimizers', 'ITKTestKernel']
    r = []
    for n in names:
        for p in ('lib%s-5.3.so.1' % n, 'lib%s-5.3.so' % n, 'lib%s.so.5.3' % n, 'lib%s.so' % n, 'lib%s.so.1' % n):
            if os.path.exists(os.path.join(d, p)):
                r.append(os.path.join(d, p))
                break
    return r


if __name__ == '__main__':
    for w in sys.argv[1:] or ['sim']:
        print(build(w))
