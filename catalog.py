Q = 24
CATALOG = {}
from spec.spec import SPEC
def prop(pid, harness, **kw):
    d = dict(rule=SPEC[pid]['rule'], harness=harness, assumptions=SPEC[pid]['assume'])
    d.update(kw)
    CATALOG[pid] = d
def h(src, **kw):
    d = dict(src=src + '.cpp', name=src)
    d.update(kw)
    return d
prop('C01', [h('c01_atoi', fuzz=1)])
prop('C02', [h('c02_itoa')])
prop('C03', [h('c03_base64')])
prop('C04', [h('c04_csv', fuzz=1)])
prop('C05', [h('c05_serializer', weight=6), h('c05_big', san='none', workers=6, weight=1), h('c05_serializer', name='c05_serializer_fixed', flags=['-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER'], weight=2)])
prop('C06', [h('c06_stream', fuzz=1, weight=5), h('c06_big', san='none', workers=6, weight=1)])
prop('C07', [h('c07_zlib', libs=['-lz'])])
prop('C08', [h('c08_bitvector')])
prop('C09', [h('c09_sucvector', weight=5), h('c09_big', san='none', workers=2, weight=1)])
prop('C10', [h('c10_wavelet', weight=2), h('c10_wavelet', name='c10_wavelet_direct', flags=['-DCYBOZU_WAVELET_MATRIX_DIRECT_CONSTRUCT'])])
prop('C11', [h('c11_fmindex')])
prop('C12', [h('c12_csucvector')])
prop('C13', [h('c13_frequency')])
prop('C14', [h('c14_utf', fuzz=1)])
prop('C15', [h('c15_string')])
prop('C16', [h('c16_strop')])
prop('C17', [h('c17_hash', libs=['-lcrypto'], weight=6), h('c17_hash', name='c17_hash_native', flags=['-DCYBOZU_DONT_USE_OPENSSL'], libs=['-lcrypto'], weight=9),
    h('c17_hash', name='c17_hash_oldapi', flags=['-DCYBOZU_USE_OPENSSL_NEW_HASH=0'], libs=['-lcrypto'], weight=3), h('c17_big', san='none', libs=['-lcrypto', '-lpthread'], weight=1, workers=1), h('c17_big', name='c17_huge', flags=['-O3', '-march=native', '-DHUGE_MESSAGE'], san='none', libs=['-lcrypto', '-lpthread'], weight=1, workers=1)])
prop('C18', [h('c18_crypto', libs=['-lcrypto'], weight=2), h('c18_crypto', name='c18_crypto_oldapi', flags=['-DCYBOZU_USE_OPENSSL_NEW_HASH=0'], libs=['-lcrypto'])])
prop('C19', [h('c19_config', fuzz=1)])
prop('C20', [h('c20_option')])
prop('C21', [h('c21_minixml', fuzz=1)])
prop('C22', [h('c22_time', fuzz=1)])
prop('C23', [h('c23_file', libs=['-Wl,' + ','.join('--wrap=' + f for f in 'open read write close fstat fdatasync fsync mmap lseek'.split())])])
prop('C24', [h('c24_array')])
prop('C25', [h('c25_sparse')])
prop('C26', [h('c26_topscore')])
prop('C27', [h('c27_random', libs=['-Wl,--wrap=fread'])])
prop('C28', [h('c28_socket', libs=['-Wl,' + ','.join('--wrap=' + f for f in 'socket bind listen connect accept accept4 read write recv send close setsockopt getsockopt getaddrinfo freeaddrinfo ioctl select poll epoll_wait epoll_create1'.split())])])
_T = ['-pthread', '-Wl,' + ','.join('--wrap=pthread_' + f for f in 'mutex_lock mutex_unlock cond_signal cond_broadcast create'.split()) + ',--wrap=nanosleep']
prop('C29', [h('c29_thread', libs=_T, flaky=1, hang=25), h('c29_thread', name='c29_thread_tsan', san='tsan', libs=_T, flaky=1, hang=25)])
prop('C30', [h('c30_bits', flags=['-msse4.1', '-mpopcnt'], weight=3), h('c30_bits', name='c30_bits_generic', flags=['-DGENERIC'])])
prop('C31', [h('c31_test')])
prop('C32', [h('c32_format')])
prop('C33', [h('c33_log', libs=['-pthread', '-Wl,' + ','.join('--wrap=' + f for f in 'fclose fprintf vfprintf fputs fputc putc fwrite fflush syslog vsyslog __syslog_chk __vsyslog_chk'.split())])])
prop('C34', [h('c34_process', libs=['-Wl,' + ','.join('--wrap=' + f for f in 'fork pipe pipe2 read open fcntl dup2'.split())])])
prop('C35', [h('c35_regex', libs=['-lboost_regex'])])
prop('C36', [h('c36_nlp')])
prop('C37', [h('c37_svd', flags=['-g1', '-fno-sanitize=undefined', '-DEIGEN_DONT_VECTORIZE'])])
prop('C38', [h('c38_sais')])
prop('C39', [h('c39_json')])
prop('C40', [h('c40_ssl', libs=['-Wl,' + ','.join('--wrap=' + f for f in 'socket connect close SSL_set_fd SSL_read SSL_write SSL_read_ex SSL_write_ex SSL_get_error'.split()), '-lssl', '-lcrypto', '-pthread'], hang=25)])
prop('C41', [h('c41_diag', libs=['-rdynamic', '-ldl'], weight=2), h('c41_diag', name='c41_diag_release', flags=['-DNDEBUG', '-DCYBOZU_BENCH_DONT_USE_RDTSC'], libs=['-rdynamic', '-ldl'])])
prop('C42', [h('c42_mecab', libs=['-lmecab'])])
