"""Build the driver from /repo's current working tree (library and programs), with the virtual transport linked in."""
import os, sys, subprocess, glob, hashlib, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WRAP = ('malloc calloc realloc reallocarray free strdup strndup time gettimeofday clock_gettime sleep usleep nanosleep read recv recvfrom write send sendto close shutdown open open64 isatty tcsetattr '
        'tcgetattr tcdrain tcflush fcntl ioctl getaddrinfo freeaddrinfo socket connect setsockopt getsockopt select pselect poll').split()
CF = ('-O1 -g -w -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fsanitize=address,bounds -fno-sanitize-recover=all').split()

class BuildError(Exception): pass

def sh(a):
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(' '.join(a) + '\n' + p.stdout[-4000:])

def build(out):
    """returns the path of the driver binary"""
    os.makedirs(out + '/inc', exist_ok=True)
    open(out + '/config.h', 'w').write('#define VERSION "verif"\n#define PACKAGE "libmbus"\n#define PACKAGE_VERSION "verif"\n#define PACKAGE_NAME "libmbus"\n#define HAVE_STRING_H 1\n#define HAVE_STDLIB_H 1\n#define HAVE_UNISTD_H 1\n')
    inc = ['-I', out + '/inc', '-I', out, '-I', REPO + '/mbus', '-I', REPO]
    jobs = []; objs = []
    for s in sorted(glob.glob(REPO + '/mbus/*.c')):
        o = out + '/lib_' + os.path.basename(s)[:-2] + '.o'; objs.append(o); jobs.append([['gcc', *CF, *inc, '-c', s, '-o', o]])
    for s in sorted(glob.glob(REPO + '/bin/*.c')):
        n = os.path.basename(s)[:-2].replace('-', '_'); o = out + '/tool_' + n + '.o'; objs.append(o)
        jobs.append([['gcc', *CF, *inc, '-Dmain=tool_' + n, '-c', s, '-o', o], ['objcopy', '--keep-global-symbol=tool_' + n, o]])
    for s in ('vio.c', 'drv.c'):
        o = out + '/' + s[:-2] + '.o'; objs.append(o); jobs.append([['gcc', *CF, *inc, '-c', VERIF + '/harness/' + s, '-o', o]])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda cs: [sh(c) for c in cs], jobs))
    drv = out + '/drv'
    sh(['gcc', *CF, '-o', drv, *objs, *['-Wl,--wrap=' + w for w in WRAP], '-lm'])
    return drv

if __name__ == '__main__':
    print(build(sys.argv[1]))
