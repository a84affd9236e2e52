// LD_PRELOAD fault injector for the command-line tool: the n-th read of NXV_IN or write to NXV_OUT
// fails, is short, or is interrupted. What fired is recorded in NXV_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static int matches(int fd, const char* var)
{
    const char* want = getenv(var);
    char link[64], path[4096];
    if (!want || !*want)
        return 0;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, path, sizeof(path) - 1);
    if (n < 0)
        return 0;
    path[n] = 0;
    return strcmp(path, want) == 0;
}

static void fired(const char* what)
{
    const char* log = getenv("NXV_LOG");
    FILE* f = log ? fopen(log, "a") : 0;
    if (f) {
        fprintf(f, "%s\n", what);
        fclose(f);
    }
}

static int plan(const char* var, int* count)
{
    // "<kind><n>": E error, S short, I interrupted; n = which call (0 = every call)
    const char* p = getenv(var);
    if (!p || !*p)
        return 0;
    const int n = atoi(p + 1);
    ++*count;
    if (n && *count != n)
        return 0;
    return p[0];
}

ssize_t read(int fd, void* buf, size_t size)
{
    static ssize_t (*real)(int, void*, size_t);
    static int count;
    if (!real)
        real = dlsym(RTLD_NEXT, "read");
    if (matches(fd, "NXV_IN")) {
        const int k = plan("NXV_READ", &count);
        if (k == 'E') {
            fired("read error");
            errno = EIO;
            return -1;
        }
        if (k == 'S' && size > 1) {
            fired("short read");
            return real(fd, buf, count % 3 == 0 ? 1 : (size + 1) / 2);
        }
        if (k == 'I' && count < 40) {
            fired("interrupted read");
            errno = EINTR;
            return -1;
        }
    }
    return real(fd, buf, size);
}

static ssize_t out_fault(int fd, size_t size, size_t* take)
{
    static int count;
    *take = size;
    if (matches(fd, "NXV_OUT")) {
        const int k = plan("NXV_WRITE", &count);
        if (k == 'E') {
            fired("write error");
            errno = ENOSPC;
            return -1;
        }
        if (k == 'S' && size > 1) {
            fired("short write");
            *take = (size + 1) / 2;
        }
        if (k == 'I' && count < 40 && count % 2) {
            fired("interrupted write");
            errno = EINTR;
            return -1;
        }
    }
    return 0;
}

ssize_t write(int fd, const void* buf, size_t size)
{
    static ssize_t (*real)(int, const void*, size_t);
    size_t take;
    if (!real)
        real = dlsym(RTLD_NEXT, "write");
    if (out_fault(fd, size, &take) < 0)
        return -1;
    return real(fd, buf, take);
}

ssize_t writev(int fd, const struct iovec* iov, int n)
{
    static ssize_t (*real)(int, const struct iovec*, int);
    size_t size = 0, take;
    if (!real)
        real = dlsym(RTLD_NEXT, "writev");
    for (int i = 0; i < n; ++i)
        size += iov[i].iov_len;
    if (out_fault(fd, size, &take) < 0)
        return -1;
    if (take < size) {
        for (int i = 0; i < n; ++i)
            if (iov[i].iov_len) {
                struct iovec one = iov[i];
                if (one.iov_len > take)
                    one.iov_len = take;
                return real(fd, &one, 1);
            }
    }
    return real(fd, iov, n);
}

// "C0" in NXV_WRITE: the data is written, but closing the output reports an I/O error (as on a
// network file system or with delayed allocation).
int close(int fd)
{
    static int (*real)(int);
    if (!real)
        real = dlsym(RTLD_NEXT, "close");
    const char* p = getenv("NXV_WRITE");
    const int hit = p && p[0] == 'C' && matches(fd, "NXV_OUT");
    const int r = real(fd);
    if (hit && r == 0) {
        fired("close error");
        errno = EIO;
        return -1;
    }
    return r;
}

int fclose(FILE* f)
{
    static int (*real)(FILE*);
    if (!real)
        real = dlsym(RTLD_NEXT, "fclose");
    const char* p = getenv("NXV_WRITE");
    const int hit = p && p[0] == 'C' && f && fileno(f) >= 0 && matches(fileno(f), "NXV_OUT");
    const int r = real(f);
    if (hit && r == 0) {
        fired("close error");
        errno = EIO;
        return EOF;
    }
    return r;
}
