/* A huge block of pages that come into being when touched. */
#include <unistd.h>
#include <sys/mman.h>
static char* huge(size_t n)
{
    char* p = (char*) mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    if(vf_profile == 2) madvise(p, n, MADV_HUGEPAGE);
    return p;
}
/* n bytes c, all of them views of the same few pages; nothing is mapped behind them */
static char* huge_view(size_t n, int c, void** base, size_t* total)
{
    const size_t unit = (size_t) 4 << 20;
    size_t units = (n + unit - 1) / unit, i;
    int fd = memfd_create("view", 0);
    char* p, *u;
    *total = units * unit + 4096;
    p = (char*) mmap(NULL, *total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED || fd < 0 || ftruncate(fd, (off_t) unit) != 0) { fprintf(stderr, "no address space\n"); exit(3); }
    for(i = 0; i < units; i++) {
        u = (char*) mmap(p + i * unit, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
        if(u == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    }
    memset(p, c, unit);
    close(fd);
    *base = p;
    return p + units * unit - n;
}
