// A large logical buffer backed by a small file mapped over and over: gigabytes of readable (or writable)
// address space for one small window of memory.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
struct Window {
    uint8_t *p = nullptr;
    size_t total, win;
    // One inaccessible page follows the last window.
    Window(size_t total_, size_t win_) : total((total_ + win_ - 1) / win_ * win_), win(win_) {
        int fd = (int)syscall(SYS_memfd_create, "w", 0);
        if (fd < 0 || ftruncate(fd, (off_t)win) < 0) abort();
        p = (uint8_t *)mmap(nullptr, total + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        for (size_t o = 0; o < total; o += win)
            if (mmap(p + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
        close(fd);
    }
    // A text of n characters of the window, with its terminator: the last pieces get memory of their own.
    void end_text(size_t n) {
        size_t last = n / win * win;
        uint8_t *copy = (uint8_t *)malloc(win);
        memcpy(copy, p, win);
        if (mmap(p + last, win, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
        memcpy(p + last, copy, n - last);
        free(copy);
        p[n] = 0;
    }
    ~Window() { munmap(p, total + 4096); }
};
