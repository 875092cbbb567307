// ttyrun PROGRAM ARGS...: runs a program whose standard input is a terminal on
// which the contents of our own standard input are typed, followed by as many
// end-of-file keys as the program asks for.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <string>

int main(int argc, char **argv)
{
    std::string data;
    char buf[4096];
    ssize_t k;
    while ((k = read(0, buf, sizeof buf)) > 0)
        data.append(buf, k);
    int m = posix_openpt(O_RDWR | O_NOCTTY);
    if (m < 0 || grantpt(m) < 0 || unlockpt(m) < 0) {
        perror("ttyrun: no terminal");
        return 126;
    }
    int s = open(ptsname(m), O_RDWR | O_NOCTTY);
    if (s < 0) {
        perror("ttyrun: no terminal");
        return 126;
    }
    termios t;
    tcgetattr(s, &t);
    t.c_lflag &= ~(ECHO | ECHONL | ISIG | IEXTEN);
    t.c_lflag |= ICANON;
    t.c_iflag &= ~(ICRNL | INLCR | IGNCR | IXON | ISTRIP);
    tcsetattr(s, TCSANOW, &t);
    if (data.size() && data.back() != '\n')
        data += '\4';
    data += '\4';
    if (data.size() > 4000 || write(m, data.data(), data.size()) != (ssize_t)data.size()) {
        fprintf(stderr, "ttyrun: too much input\n");
        return 126;
    }
    pid_t pid = fork();
    if (pid == 0) {
        dup2(s, 0);
        close(s);
        close(m);
        execvp(argv[1], argv + 1);
        _exit(127);
    }
    sigset_t chld;
    sigemptyset(&chld);
    sigaddset(&chld, SIGCHLD);
    sigprocmask(SIG_BLOCK, &chld, nullptr);
    int st;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        timespec ts{ 0, 20000000 };
        if (sigtimedwait(&chld, nullptr, &ts) < 0)
            (void)!write(m, "\4", 1);
    }
    if (WIFSIGNALED(st))
        kill(getpid(), WTERMSIG(st));
    return WEXITSTATUS(st);
}
