#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (no network, no state outside /verif/build).

Everything of semlanik/qtprotobuf that runs in the simulator is compiled from /repo/src: the generator
(qtprotobufgen, which then generates the Qt side of harness/proto), the Protobuf and Grpc
libraries and the QML stream element. They are compiled with AddressSanitizer and with
-fsanitize-coverage=trace-pc, whose callback is the simulator's preemption point.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSIM_REPO', '/repo')
B = os.environ.get('VSIM_BUILD', os.path.join(VERIF, 'build'))
H = os.path.join(VERIF, 'harness')
QT = '/usr/include/x86_64-linux-gnu/qt5'
MOC = '/usr/lib/qt5/bin/moc'

SAN = '-fsanitize=address -fno-omit-frame-pointer'
COMMON = '-fPIC -O1 -g1 -w -pthread'
COV = '-fsanitize-coverage=trace-pc'
DEFS = ('-DQT_CORE_LIB -DQT_NETWORK_LIB -DQT_QML_LIB -DQT_PROTOBUF_NATIVE_GRPC_CHANNEL '
        '-DQT_BUILD_PROTOBUF_LIB -DQT_BUILD_GRPC_LIB -DQT_BUILD_PROTOBUF_QT_TYPES_LIB '
        '-DQT_PROTOBUF_PLUGIN_PATH=\\"/nonexistent/protobuf\\" '
        '-DQT_PROTOBUF_VERSION_MAJOR=0 -DQT_PROTOBUF_VERSION_MINOR=6')


def camel_headers():
    """Camel-case forwarding headers the generated code and the QML element include."""
    names = {
        'protobuf': ['QAbstractProtobufSerializer', 'QProtobufJsonSerializer', 'QProtobufLazyMessagePointer',
                     'QProtobufMetaObject', 'QProtobufMetaProperty', 'QProtobufObject',
                     'QProtobufSelfcheckIterator', 'QProtobufSerializationPluginInterface',
                     'QProtobufSerializer', 'QQmlListPropertyConstructor', 'QtProtobufTypes'],
        'grpc': ['QAbstractGrpcChannel', 'QAbstractGrpcClient', 'QGrpcCallReply', 'QGrpcChannel',
                 'QGrpcCredentials', 'QGrpcHttp2Channel', 'QGrpcInsecureCredentials', 'QGrpcSslCredentials',
                 'QGrpcStatus', 'QGrpcStream', 'QGrpcUserPasswordCredentials'],
    }
    d = os.path.join(B, 'fwd')
    os.makedirs(d, exist_ok=True)
    for sub, lst in names.items():
        todo = {n.lower(): n for n in lst}
        for h in sorted(glob.glob('%s/src/%s/*.h' % (REPO, sub))):
            base = os.path.basename(h)[:-2]
            for n in re.findall(r'\b(?:class|struct|namespace)\s+(?:[A-Z_]+\s+)?(\w+)', open(h, errors='replace').read()):
                if n.lower() == base:
                    todo.setdefault(base, n)
        for base, n in todo.items():
            if os.path.exists('%s/src/%s/%s.h' % (REPO, sub, base)):
                write_if_changed(os.path.join(d, n), '#include "%s/src/%s/%s.h"\n' % (REPO, sub, base))
    write_if_changed(os.path.join(d, 'QtProtobufQtTypes'), '#include "%s/src/qttypes/qtprotobufqttypes.h"\n' % REPO)
    # the registration of the QML module that gives the element its exported names
    write_if_changed(os.path.join(d, 'QtGrpcQuickGlobal'), '')


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def has_qobject(path):
    t = open(path, errors='replace').read()
    return any(k in t for k in ('Q_OBJECT', 'Q_GADGET', 'Q_NAMESPACE'))


def gen_ninja():
    inc = ' '.join('-I' + p for p in [
        REPO + '/src/protobuf', REPO + '/src/grpc', REPO + '/src/grpc/quick', REPO + '/src/qttypes', B + '/fwd', B + '/gen', H + '/sim',
        QT, QT + '/QtCore', QT + '/QtGui', QT + '/QtNetwork', QT + '/QtQml', QT + '/QtQuick'])
    o = []
    w = o.append
    w('ninja_required_version = 1.5')
    w('builddir = ' + B)
    w('rule repo\n  command = g++ $defs -std=gnu++14 %s %s %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = repo $out'
      % (COMMON, SAN, COV, DEFS, inc))
    # QT_BUILD_*_LIB switches the export macros; the harness sees the same declarations in one executable
    w('rule harness\n  command = g++ $defs -std=gnu++17 %s %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = harness $out'
      % (COMMON, SAN, DEFS, inc))
    w('rule core\n  command = g++ -std=gnu++17 %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = core $out'
      % (COMMON.replace('-O1', '-O2'), inc))
    w('rule ref\n  command = g++ -std=gnu++17 %s -I%s/gen -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = ref $out' % (COMMON, B))
    w('rule gen\n  command = g++ -std=gnu++14 -O0 -w -include /opt/vp/support/protobuf_string.h -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = generator $out')
    w('rule genlink\n  command = g++ $in -o $out -lprotoc -lprotobuf -lpthread\n  description = link $out')
    w('rule moc\n  command = %s $defs %s %s $in -o $out\n  description = moc $out' % (MOC, DEFS, inc))
    w('rule protoqt\n  command = QT_PROTOBUF_OPTIONS=SINGLE:QML protoc --plugin=protoc-gen-qtprotobufgen=%s/qtprotobufgen --qtprotobufgen_out=%s/gen -I%s/proto $proto\n  description = qtprotobufgen' % (B, B, H))
    w('rule protofolder\n  command = QT_PROTOBUF_OPTIONS=FOLDER:QML protoc --plugin=protoc-gen-qtprotobufgen=%s/qtprotobufgen --qtprotobufgen_out=%s/gen -I%s/src/qttypes -I%s/proto $proto\n  description = qtprotobufgen' % (B, B, REPO, H))
    w('rule protorefqt\n  command = protoc --cpp_out=%s/gen -I%s/proto $in\n  description = protoc' % (B, H))
    w('rule protoref\n  command = sed "s/^package vsim;/package refsim;/" $in > %s/gen/refsim.proto && protoc --cpp_out=%s/gen -I%s/gen %s/gen/refsim.proto\n  description = protoc' % (B, B, B, B))
    w('rule link\n  command = g++ %s -rdynamic $in -o $out -lgrpc++ -lgrpc -lgpr -lprotobuf -labsl_synchronization -lQt5Qml -lQt5Gui -lQt5Network -lQt5Core -lz -ldl -lpthread\n  description = link $out' % SAN)
    w('rule plugin\n  command = g++ $defs -std=gnu++14 %s %s %s %s -fno-gnu-unique -MMD -MF $out.d -shared $in -o $out -lQt5Core\n  depfile = $out.d\n  deps = gcc\n  description = plugin $out' % (COMMON, SAN, DEFS, inc))

    # generator
    gobjs = []
    for c in sorted(glob.glob(REPO + '/src/generator/*.cpp')):
        ob = B + '/obj/gen_' + os.path.basename(c) + '.o'
        w('build %s: gen %s' % (ob, c))
        gobjs.append(ob)
    w('build %s/qtprotobufgen: genlink %s' % (B, ' '.join(gobjs)))
    gen = [B + '/gen/' + n for n in ('vsim.qpb.cpp', 'vsim.qpb.h', 'vsim_grpc.qpb.cpp', 'vsim_grpc.qpb.h')]
    w('build %s: protoqt %s/proto/vsim.proto | %s/qtprotobufgen\n  proto = %s/proto/vsim.proto' % (' '.join(gen), H, B, H))
    deep = [B + '/gen/' + n for n in ('deep.qpb.cpp', 'deep.qpb.h', 'deep_grpc.qpb.cpp', 'deep_grpc.qpb.h')]
    w('build %s: protoqt %s/proto/deep.proto | %s/qtprotobufgen %s/proto/vsim.proto\n  proto = %s/proto/deep.proto' % (' '.join(deep), H, B, H, H))
    gen += deep
    qtn = ['QtProtobuf/QtCore', 'QtProtobuf/QtGui', 'vqt/vqt']
    for n, src in zip(qtn, [REPO + '/src/qttypes/QtProtobuf/QtCore.proto', REPO + '/src/qttypes/QtProtobuf/QtGui.proto', H + '/proto/vqt.proto']):
        outs = ['%s/gen/%s.qpb.%s' % (B, n, e) for e in ('cpp', 'h')]
        w('build %s: protofolder %s | %s/qtprotobufgen\n  proto = %s' % (' '.join(outs), src, B, src))
        gen += outs
    w('build %s/gen/refqt.pb.cc %s/gen/refqt.pb.h: protorefqt %s/proto/refqt.proto' % (B, B, H))
    w('build %s/gen/refsim.pb.cc %s/gen/refsim.pb.h: protoref %s/proto/vsim.proto' % (B, B, H))

    objs = []
    # repository libraries
    for sub in ('protobuf', 'grpc'):
        for c in sorted(glob.glob('%s/src/%s/*.cpp' % (REPO, sub))):
            if c.endswith('/qprotobufjsonserializer.cpp'):
                continue
            ob = '%s/obj/%s_%s.o' % (B, sub, os.path.basename(c))
            w('build %s: repo %s' % (ob, c))
            objs.append(ob)
        for h in sorted(glob.glob('%s/src/%s/*.h' % (REPO, sub))):
            if has_qobject(h) and 'plugininterface' not in h:
                m = '%s/moc/moc_%s_%s.cpp' % (B, sub, os.path.basename(h)[:-2])
                w('build %s: moc %s' % (m, h))
                w('build %s.o: repo %s' % (m, m))
                objs.append(m + '.o')
    w('build %s/obj/json_left_out.o: repo /opt/vp/support/json_left_out.cpp' % B)
    objs.append(B + '/obj/json_left_out.o')
    # the QML element, without the plugin that registers it
    for c in sorted(glob.glob(REPO + '/src/grpc/quick/*.cpp')):
        if 'plugin' in os.path.basename(c):
            continue
        ob = '%s/obj/quick_%s.o' % (B, os.path.basename(c))
        w('build %s: repo %s' % (ob, c))
        objs.append(ob)
    for h in sorted(glob.glob(REPO + '/src/grpc/quick/*.h')):
        if has_qobject(h) and 'plugin' not in os.path.basename(h):
            m = '%s/moc/moc_quick_%s.cpp' % (B, os.path.basename(h)[:-2])
            w('build %s: moc %s' % (m, h))
            w('build %s.o: repo %s' % (m, m))
            objs.append(m + '.o')
    # generated messages and client
    for n in ('vsim', 'vsim_grpc', 'deep', 'deep_grpc'):
        w('build %s/obj/%s.o: repo %s/gen/%s.qpb.cpp | %s' % (B, n, B, n, ' '.join(gen)))
        w('build %s/moc/moc_%s.cpp: moc %s/gen/%s.qpb.h | %s' % (B, n, B, n, ' '.join(gen)))
        w('build %s/moc/moc_%s.cpp.o: repo %s/moc/moc_%s.cpp | %s' % (B, n, B, n, ' '.join(gen)))
        objs += ['%s/obj/%s.o' % (B, n), '%s/moc/moc_%s.cpp.o' % (B, n)]
    # Qt types
    for c in sorted(glob.glob(REPO + '/src/qttypes/*.cpp')):
        ob = '%s/obj/qttypes_%s.o' % (B, os.path.basename(c))
        w('build %s: repo %s | %s' % (ob, c, ' '.join(gen)))
        objs.append(ob)
    for n in qtn:
        o2 = n.replace('/', '_')
        w('build %s/obj/%s.o: repo %s/gen/%s.qpb.cpp | %s' % (B, o2, B, n, ' '.join(gen)))
        w('build %s/moc/moc_%s.cpp: moc %s/gen/%s.qpb.h | %s' % (B, o2, B, n, ' '.join(gen)))
        w('build %s/moc/moc_%s.cpp.o: repo %s/moc/moc_%s.cpp | %s' % (B, o2, B, o2, ' '.join(gen)))
        objs += ['%s/obj/%s.o' % (B, o2), '%s/moc/moc_%s.cpp.o' % (B, o2)]
    w('build %s/obj/refqt.o: ref %s/gen/refqt.pb.cc | %s/gen/refqt.pb.h' % (B, B, B))
    objs.append(B + '/obj/refqt.o')
    # reference server messages
    w('build %s/obj/refsim.o: ref %s/gen/refsim.pb.cc | %s/gen/refsim.pb.h' % (B, B, B))
    objs.append(B + '/obj/refsim.o')
    # harness
    for c in sorted(glob.glob(H + '/sim/*.cpp')):
        ob = '%s/obj/sim_%s.o' % (B, os.path.basename(c))
        rule = 'core' if os.path.basename(c).startswith('core') else 'harness'
        w('build %s: %s %s || %s %s/gen/refsim.pb.h %s/gen/refqt.pb.h' % (ob, rule, c, ' '.join(gen), B, B))
        objs.append(ob)
    w('build %s/moc/moc_jsbridge.cpp: moc %s/sim/jsbridge.h' % (B, H))
    w('build %s/moc/moc_jsbridge.cpp.o: harness %s/moc/moc_jsbridge.cpp' % (B, B))
    objs.append(B + '/moc/moc_jsbridge.cpp.o')
    w('build %s/vsim: link %s' % (B, ' '.join(objs)))
    targets = ['%s/vsim' % B]
    if os.path.exists(H + '/plugin/simplugin.cpp'):
        for n in ('alpha', 'beta', 'gamma', 'delta', 'undef', 'plain'):
            d = '%s/moc/%s' % (B, n)
            w('build %s/simplugin.moc: moc %s/plugin/simplugin.cpp | %s\n  defs = -DSIM_PLUGIN_%s' % (d, H, ' '.join(sorted(glob.glob(H + '/plugin/*.json'))), n))
            w('build %s/plugins/lib%s.so: plugin %s/plugin/simplugin.cpp | %s/simplugin.moc\n  defs = -I%s -DSIM_PLUGIN_%s' % (B, n, H, d, d, n))
            targets.append('%s/plugins/lib%s.so' % (B, n))
    w('default ' + ' '.join(targets))
    write_if_changed(B + '/build.ninja', '\n'.join(o) + '\n')


def drop_stale():
    """ninja goes by modification times; a source that was replaced by an older file needs its own look."""
    now = {}
    for top in (REPO + '/src', H):
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                now[p] = (hashlib.sha1(open(p, 'rb').read()).hexdigest(), os.stat(p).st_mtime)
    rec = os.path.join(B, 'sources.json')
    try:
        old = json.load(open(rec))
    except (OSError, ValueError):
        old = {'time': 0, 'files': {}}
    gone = [p for p in old['files'] if p not in now]
    stale = [p for p in now if now[p][0] != old['files'].get(p, [None])[0] and now[p][1] <= old['time']]
    if gone or stale:
        for d in ('obj', 'moc', 'gen', 'plugins', 'fwd'):
            shutil.rmtree(os.path.join(B, d), ignore_errors=True)
    write_if_changed(rec, json.dumps({'time': time.time(), 'files': now}))


def build(quiet=True):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drop_stale()
    for d in ('obj', 'moc', 'gen', 'plugins'):
        os.makedirs(os.path.join(B, d), exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        camel_headers()
        gen_ninja()
        r = subprocess.run(['ninja', '-C', B, '-j', str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
    elif not quiet:
        sys.stdout.write(r.stdout[-600:])
    return r.returncode == 0


if __name__ == '__main__':
    sys.exit(0 if build(quiet=False) else 2)
