// The real jom (main.cpp, application.cpp and libjomlib.a) with a stand-in for the process class:
// no process is started. A command "run NAME MS STATUS [TEXT]" takes MS milliseconds, prints TEXT and ends with STATUS;
// "hold MS" takes a job token for MS milliseconds, without waiting;
// every other command takes no time and succeeds; "nostart ..." cannot be started directly; "fail ..." ends with 1.
// Every start and end is written to the file named by FAKEJOM_LOG.
#include <jomprocess.h>
#include <iocompletionport.h>
#include <windows.h>
#include <QEventLoop>
#include <QElapsedTimer>
#include <QTimer>
#include <QStringList>
#include <QFile>
#include <QFileInfo>
#include <QMutex>
#include <QCoreApplication>
#include <QPair>
#include <QSystemSemaphore>
#include <cstdio>
#include <cstdlib>
#include <sys/stat.h>
#include <string>

static QElapsedTimer &clk() { static QElapsedTimer t; static bool b = (t.start(), true); (void)b; return t; }

static void note(const QString &s)
{
    const char *f = getenv("FAKEJOM_LOG");
    FILE *o = f ? fopen(f, "a") : 0;
    if (!o) return;
    fprintf(o, "%s\n", s.toLocal8Bit().constData());
    fclose(o);
}

extern "C" BOOL WINAPI GetFileAttributesExW(LPCWSTR n, GET_FILEEX_INFO_LEVELS, LPVOID out)
{
    QString s = QString::fromUtf16(reinterpret_cast<const ushort *>(n));
    if (s.startsWith(QLatin1String("\\\\?\\"))) s = s.mid(4);
    note(QLatin1String("STAT ") + s);
    struct stat st;
    if (stat(s.toLocal8Bit().constData(), &st) != 0) return FALSE;
    WIN32_FILE_ATTRIBUTE_DATA *d = static_cast<WIN32_FILE_ATTRIBUTE_DATA *>(out);
    memset(d, 0, sizeof(*d));
    d->dwFileAttributes = FILE_ATTRIBUTE_NORMAL;
    unsigned long long t = (st.st_mtim.tv_sec + 11644473600ULL) * 10000000ULL + st.st_mtim.tv_nsec / 100;
    d->ftLastWriteTime.dwLowDateTime = (DWORD)t;
    d->ftLastWriteTime.dwHighDateTime = (DWORD)(t >> 32);
    return TRUE;
}

namespace NMakeFile {

class ProcessPrivate
{
public:
    QString name;
    int status;
    QByteArray out, buf;
    QList<QPair<bool, QByteArray> > buffers;
};

static int g_running = 0;

Process::Process(QObject *parent)
    : QObject(parent), d(new ProcessPrivate), m_state(NotRunning), m_exitCode(0), m_exitStatus(NormalExit), m_bufferedOutput(true)
{
    static bool once = false;
    if (!once) {
        once = true;
        qRegisterMetaType<ExitStatus>("Process::ExitStatus");
        qRegisterMetaType<ProcessError>("Process::ProcessError");
    }
}

Process::~Process()
{
    if (m_state == Running)
        note(QLatin1String("DESTROYED-RUNNING ") + d->name);
    printBufferedOutput();
    delete d;
}

void Process::setBufferedOutput(bool b)
{
    if (m_bufferedOutput == b) return;
    m_bufferedOutput = b;
    if (!b) printBufferedOutput();
}

void Process::writeToStdOutBuffer(const QByteArray &o) { d->buffers.append(qMakePair(true, o)); }
void Process::writeToStdErrBuffer(const QByteArray &o) { d->buffers.append(qMakePair(false, o)); }

void Process::printBufferedOutput()
{
    while (!d->buffers.isEmpty()) {
        QPair<bool, QByteArray> p = d->buffers.takeFirst();
        FILE *s = p.first ? stdout : stderr;
        fwrite(p.second.constData(), 1, p.second.size(), s);
        fflush(s);
    }
}

void Process::setWorkingDirectory(const QString &path) { m_workingDirectory = path; }
void Process::setEnvironment(const ProcessEnvironment &e) { m_environment = e; }

void Process::start(const QString &commandLine)
{
    QString c = commandLine;
    const int i = c.indexOf(QLatin1String(" /C "));
    const bool shell = i >= 0;
    if (shell) {
        c = c.mid(i + 4);
        if (c.startsWith(QLatin1Char('"')) && c.endsWith(QLatin1Char('"'))) c = c.mid(1, c.length() - 2);
    }
    QStringList w = c.split(QLatin1Char(' '), QString::SkipEmptyParts);
    // like CreateProcess, nothing starts in a directory that is none
    const bool noDir = !m_workingDirectory.isEmpty() && !QFileInfo(m_workingDirectory).isDir();
    if (noDir || (!shell && w.value(0) == QLatin1String("nostart"))) {
        note(QLatin1String("CANNOT-START ") + c);
        m_state = NotRunning;
        emit error(FailedToStart);
        return;
    }
    int ms = 0;
    d->status = 0;
    d->out.clear();
    d->name = c;
    if (w.value(0) == QLatin1String("run")) {
        ms = w.value(2).toInt();
        d->status = w.value(3).toInt();
        if (w.count() > 4) d->out = (w.mid(4).join(QLatin1Char(' ')) + QLatin1Char('\n')).toLocal8Bit();
    } else if (w.value(0) == QLatin1String("fail")) {
        d->status = 1;
    } else if (w.value(0) == QLatin1String("env")) {
        note(QLatin1String("ENV ") + w.value(1) + QLatin1Char('=') + m_environment.value(w.value(1)));
    } else if (w.value(0) == QLatin1String("pwd")) {
        note(QLatin1String("PWD ") + m_workingDirectory);
    } else if (w.value(0) == QLatin1String("cat")) {
        QFile f(w.value(1));
        note(QLatin1String("CAT ") + (f.open(QFile::ReadOnly) ? QString::fromLocal8Bit(f.readAll()) : QLatin1String("-missing-")));
    } else if (w.value(0) == QLatin1String("hold")) {
        // takes a token of the job server, and gives it back after a while
        QSystemSemaphore *sem = new QSystemSemaphore(m_environment.value(QLatin1String("_JOMSRVKEY_")));
        sem->acquire();
        QTimer *t = new QTimer(QCoreApplication::instance());
        t->setSingleShot(true);
        QObject::connect(t, &QTimer::timeout, [sem, t]() { note(QLatin1String("RELEASE")); sem->release(); delete sem; t->deleteLater(); });
        t->start(w.value(1).toInt());
    } else if (w.value(0) == QLatin1String("touch")) {
        for (int k = 1; k < w.count(); ++k) { QFile f(w.at(k)); f.open(QFile::WriteOnly); f.write("x"); }
    }
    m_state = Running;
    ++g_running;
    note(QString::fromLatin1("START %1 running=%2 buffered=%3").arg(c).arg(g_running).arg(m_bufferedOutput));
    QTimer::singleShot(ms, this, SLOT(onProcessFinished()));
}

void Process::tryToRetrieveExitCode() {}

void Process::onProcessFinished()
{
    if (m_state != Running) return;
    if (!d->out.isEmpty()) {
        if (m_bufferedOutput) writeToStdOutBuffer(d->out);
        else { fwrite(d->out.constData(), 1, d->out.size(), stdout); fflush(stdout); }
    }
    printBufferedOutput();
    m_state = NotRunning;
    --g_running;
    m_exitCode = d->status;
    note(QString::fromLatin1("END %1 status=%2").arg(d->name).arg(m_exitCode));
    emit finished(m_exitCode, m_exitCode < 0 ? CrashExit : NormalExit);
}

bool Process::waitForFinished()
{
    if (m_state != Running) return true;
    QEventLoop l;
    connect(this, SIGNAL(finished(int, Process::ExitStatus)), &l, SLOT(quit()));
    l.exec();
    return true;
}

}
