From 0795088a0a8d15a4095c09b8d65e79f10ba1ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 01/40] fix: diagnose cycles through dependents that are found
 under their absolute path

DependencyGraph looks up a dependent 'foo' also as '<makefile dir>\foo'.
The cycle checker did not, so such a cycle was not diagnosed: the graph had
no leaf, nothing was built and jom exited with 0.
---
 src/jomlib/parser.cpp | 16 ++++++++++++++--
 src/jomlib/parser.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..9b151f0 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -640,6 +640,18 @@ void Parser::parseDotDirective()
     readLine();
 }
 
+/**
+ * Returns the target a dependent refers to, looked up in the same way as DependencyGraph does:
+ * the dependent "foo" may have been defined as the target "C:\MySourceDir\foo".
+ */
+DescriptionBlock *Parser::dependentTarget(const QString &dependentName) const
+{
+    DescriptionBlock *result = m_makefile->target(dependentName);
+    if (!result)
+        result = m_makefile->target(m_makefile->dirPath() + QDir::separator() + dependentName);
+    return result;
+}
+
 void Parser::checkForCycles(DescriptionBlock* target)
 {
 #ifdef DEBUG_CYCLE_CHECKER
@@ -671,7 +683,7 @@ void Parser::checkForCycles(DescriptionBlock* target)
 #endif
     target->m_bVisitedByCycleCheck = true;
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));
         checkForCycles(dep);
     }
     target->m_bVisitedByCycleCheck = false;
@@ -688,7 +700,7 @@ void Parser::resetCycleChecker(DescriptionBlock* target)
         return;
 
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));
         resetCycleChecker(dep);
     }
 
diff --git a/src/jomlib/parser.h b/src/jomlib/parser.h
index f746ba1..fff3b60 100644
--- a/src/jomlib/parser.h
+++ b/src/jomlib/parser.h
@@ -63,6 +63,7 @@ private:
     bool parseCommand(QList<Command>& commands, bool inferenceRule);
     void parseCommandLine(const QString& cmdLine, QList<Command>& commands, bool inferenceRule);
     void parseInlineFiles(Command& cmd, bool inferenceRule);
+    DescriptionBlock *dependentTarget(const QString &dependentName) const;
     void checkForCycles(DescriptionBlock* target);
     void resetCycleChecker(DescriptionBlock* target);
     QVector<InferenceRule*> findRulesByTargetName(const QString& targetFilePath);
-- 
2.43.0


From 907abe18a778837445b73c947ac4e4e258e71a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 02/40] fix: switch at most one command executor to unbuffered
 output

When the executor with unbuffered output finished, all other active ones
were switched to unbuffered output, and their outputs got interleaved.
---
 src/jomlib/targetexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..2ca88cd 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -247,6 +247,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
             if (cmdex->isActive()) {
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From 2b37555d9b703234ae841861ebba3b5dfe1de57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 03/40] fix: do not release a job token twice when the build is
 aborted

The token that is being acquired is already counted in
m_jobAcquisitionCount and may have been released in onChildFinished. The
unconditional release raised the number of tokens of the job server.
---
 src/jomlib/targetexecutor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 2ca88cd..bceca96 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -185,7 +185,10 @@ void TargetExecutor::waitForJobClient()
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
     loop.exec();
-    m_jobClient->release();
+    if (m_jobAcquisitionCount > 0) {
+        m_jobClient->release();
+        m_jobAcquisitionCount--;
+    }
 }
 
 void TargetExecutor::finishBuild(int exitCode)
-- 
2.43.0


From f46a99fba8c42e5d2f58b391314d99ed4c2ca78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 04/40] fix: await all commands of the running targets when the
 build is aborted

Waiting ended with the first command that finished, although the next
command of the same target was already started. Moreover, that process was
then regarded as not running. jom exited while commands were running.
---
 src/jomlib/commandexecutor.cpp | 4 +++-
 src/jomlib/jomprocess.cpp      | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..642d342 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -132,7 +132,9 @@ void CommandExecutor::finishExecution(bool commandFailed)
 
 void CommandExecutor::waitForFinished()
 {
-    m_process.waitForFinished();
+    // When a command has finished, the next command of the target may have been started.
+    while (m_process.isRunning())
+        m_process.waitForFinished();
 }
 
 inline bool commandLineStartsWithCommand(const QString &str, const QString &searchString)
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..eba65c2 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -453,8 +453,6 @@ bool Process::waitForFinished()
     QEventLoop eventLoop;
     connect(this, SIGNAL(finished(int, Process::ExitStatus)), &eventLoop, SLOT(quit()));
     eventLoop.exec();
-
-    m_state = NotRunning;
     return true;
 }
 
-- 
2.43.0


From 771460625b3fb2f24078c0556f5271c28d273d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 05/40] fix: do not build anything if only the dependency graph
 is to be dumped

TargetExecutor::apply() ends the build if there is nothing to do. Exiting the
application before its event loop is running has no effect, and main() started
the build in any case.
---
 src/app/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index c310836..5fc8b8b 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -211,11 +211,11 @@ int main(int argc, char* argv[])
         }
 
         TargetExecutor executor(processEnvironment);
-        QObject::connect(&executor, SIGNAL(finished(int)), &app, SLOT(exit(int)));
+        QObject::connect(&executor, SIGNAL(finished(int)), &app, SLOT(exit(int)),
+                         Qt::QueuedConnection);
         g_pTargetExecutor = &executor;
         executor.apply(mkfile.data(), mf.activeTargets());
 
-        QMetaObject::invokeMethod(&executor, "startProcesses", Qt::QueuedConnection);
         result = app.exec();
         g_pTargetExecutor = 0;
         if (options->printWorkingDir) {
-- 
2.43.0


From 82be4734e960dbc256d838fbbae6772158beddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:02 +0000
Subject: [PATCH 06/40] fix: await running commands when a target cannot be
 started

If the commands of a target could not be started (e.g. an inline file
cannot be written) jom exited at once, abandoned the running commands
and kept the acquired job tokens.
---
 src/jomlib/targetexecutor.cpp | 28 ++++++++++++++++++----------
 src/jomlib/targetexecutor.h   |  1 +
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index bceca96..d7a95e8 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -147,9 +147,8 @@ void TargetExecutor::startProcesses()
             }
         }
     } catch (Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -166,9 +165,8 @@ void TargetExecutor::buildNextTarget()
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -191,6 +189,21 @@ void TargetExecutor::waitForJobClient()
     }
 }
 
+void TargetExecutor::abortBuild(int exitCode)
+{
+    m_bAborted = true;
+    m_depgraph->clear();
+    m_pendingTargets.clear();
+    waitForProcesses();
+    waitForJobClient();
+    while (m_jobAcquisitionCount > 0) {
+        // This token was acquired for a target that couldn't be started.
+        m_jobClient->release();
+        m_jobAcquisitionCount--;
+    }
+    finishBuild(exitCode);
+}
+
 void TargetExecutor::finishBuild(int exitCode)
 {
     if (exitCode == 0
@@ -259,12 +272,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
 
     bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;
     if (abortMakeProcess) {
-        m_bAborted = true;
-        m_depgraph->clear();
-        m_pendingTargets.clear();
-        waitForProcesses();
-        waitForJobClient();
-        finishBuild(2);
+        abortBuild(2);
     }
 
     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 3379251..c86de31 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -62,6 +62,7 @@ private:
     int numberOfRunningProcesses() const;
     void waitForProcesses();
     void waitForJobClient();
+    void abortBuild(int exitCode);
     void finishBuild(int exitCode);
     void findNextTarget();
 
-- 
2.43.0


From 9ac25b51c209f0de482915c1563b260e2030a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 07/40] fix: resolve the argument of cd against the working
 directory of the target

A relative cd after another cd was resolved against jom's own directory.
---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 642d342..e24bbc4 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -377,7 +377,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     }
 
     removeDoubleQuotes(args);
-    QFileInfo fi(args);
+    QFileInfo fi(QDir(m_process.workingDirectory()), args);
     if (!fi.exists()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
-- 
2.43.0


From 783a0fe369cb200b15e5a85a825851ac94057bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 08/40] fix: a command that can't be started terminated jom
 instead of failing its target

---
 src/jomlib/commandexecutor.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index e24bbc4..d03725f 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -92,8 +92,15 @@ void CommandExecutor::start(DescriptionBlock* target)
 void CommandExecutor::onProcessError(Process::ProcessError error)
 {
     //qDebug() << "onProcessError" << error;
-    if (!m_ignoreProcessErrors)
-        onProcessFinished(2, (error == Process::Crashed) ? Process::CrashExit : Process::NormalExit);
+    if (m_ignoreProcessErrors)
+        return;
+    if (error == Process::FailedToStart) {
+        QByteArray msg = "jom: Can't start command: ";
+        msg += m_pTarget->m_commands.at(m_currentCommandIdx).m_commandLine.toLocal8Bit();
+        msg += "\n";
+        writeToStandardError(msg);
+    }
+    onProcessFinished(2, (error == Process::Crashed) ? Process::CrashExit : Process::NormalExit);
 }
 
 void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitStatus)
@@ -248,12 +255,8 @@ void CommandExecutor::executeCurrentCommandLine()
             shellCmd = QLatin1String("cmd.exe");
 
         commandLine = shellCmd + QLatin1Literal(" /C ") + commandLine;
-        m_process.start(commandLine);
-        executionSucceeded = m_process.isRunning();
+        m_process.start(commandLine);   // A failure is handled in onProcessError.
     }
-
-    if (!executionSucceeded)
-        qFatal("Can't start command: %s", qPrintable(commandLine));
 }
 
 void CommandExecutor::createTempFiles()
-- 
2.43.0


From 4118af4e0d2c3631d782c29619ffd52376378233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 09/40] fix: cd to a file succeeded, and no further command of
 the target could be started

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index d03725f..2362db2 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -381,7 +381,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
 
     removeDoubleQuotes(args);
     QFileInfo fi(QDir(m_process.workingDirectory()), args);
-    if (!fi.exists()) {
+    if (!fi.isDir()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
         return false;
-- 
2.43.0


From d71678a5380a6e463a74b414fcd02598dbd23098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:02 +0000
Subject: [PATCH 10/40] fix: do not ignore .SYNC for targets that come after
 one without rule

The translation of sync points stopped at the first one whose name is no
target, e.g. a source file; which ones were lost depended on the order of
the hash.
---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 9b151f0..d0ac575 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -132,7 +132,7 @@ void Parser::apply(Preprocessor* pp,
     {
         DescriptionBlock *target = m_makefile->target(it.key());
         if (!target)
-            break;
+            continue;
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
-- 
2.43.0


From 10fa019b8faa8e793c68eef45353eab3e0b41863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:02 +0000
Subject: [PATCH 11/40] fix: an empty group between two .SYNC must not cancel
 the first

'a .SYNC $(NOTHING) .SYNC b' made b start without waiting for a.
---
 src/jomlib/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index d0ac575..f259877 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -431,8 +431,10 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
                 dependents.removeAt(i);
                 if (dependents.count() == i)
                     break;
-                syncDeps = dependents.mid(k, i - k);
-                k = i;
+                if (i > k) {
+                    syncDeps = dependents.mid(k, i - k);
+                    k = i;
+                }
             } else {
                 m_syncPoints[dependents.at(i)] += syncDeps;
                 ++i;
-- 
2.43.0


From 02455b954272da9927ff348bb33955e9e4c18d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:25 +0000
Subject: [PATCH 12/40] fix: obey .SYNC for dependents that are only known by
 an inference rule

There is no target for such a dependent when sync points are translated, so
that it was started without waiting. Look targets up as the dependency graph
does.
---
 src/jomlib/parser.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index f259877..5af82f9 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -126,23 +126,28 @@ void Parser::apply(Preprocessor* pp,
 
     m_makefile->calculateInferenceRulePriorities(m_suffixes);
 
+    // build rule suffix cache
+    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
+        InferenceRule *ir = m_makefile->inferenceRules().at(i);
+        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
+    }
+
     // translate sync points from .SYNC targets into real dependencies
     for (QHash<QString, QStringList>::const_iterator it = m_syncPoints.constBegin();
         it != m_syncPoints.constEnd(); ++it)
     {
-        DescriptionBlock *target = m_makefile->target(it.key());
-        if (!target)
-            continue;
+        DescriptionBlock *target = dependentTarget(it.key());
+        if (!target) {
+            const QVector<InferenceRule *> rules = findRulesByTargetName(it.key());
+            if (it.value().isEmpty() || rules.isEmpty())
+                continue;
+            target = createTarget(it.key());
+            target->m_inferenceRules = rules;
+        }
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
 
-    // build rule suffix cache
-    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
-        InferenceRule *ir = m_makefile->inferenceRules().at(i);
-        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
-    }
-
     // check for cycles in active targets
     foreach (const QString& targetName, m_activeTargets) {
         DescriptionBlock *target = m_makefile->target(targetName);
-- 
2.43.0


From cd653cd830abaa4d8e05dc51f73293d39a64a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 13/40] fix: do not replace an explicit rule for a dependent by
 an inference rule

If the dependent foo.obj was defined as target C:\MySourceDir\foo.obj, a
second target foo.obj was created for a matching inference rule, and its
commands were executed instead of the explicit ones.
---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 5af82f9..93e6b9b 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -755,7 +755,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
     }
 
     foreach (const QString &dependentName, target->m_dependents) {
-        DescriptionBlock *dependent = m_makefile->target(dependentName);
+        DescriptionBlock *dependent = dependentTarget(dependentName);
         if (dependent) {
             preselectInferenceRules(dependent);
         } else {
-- 
2.43.0


From 563ad835b8cf28d13d4ab47c5b712f42cd23b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:38 +0000
Subject: [PATCH 14/40] fix: expand file name macros before sync points are
 recorded

'all: first .SYNC $$(@B).lib' recorded the sync point for the name with the
macro, which no target has, so that all.lib was not made to wait.
---
 src/jomlib/parser.cpp | 45 ++++++++++++++++++++++++-------------------
 src/jomlib/parser.h   |  1 +
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 93e6b9b..4dda195 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -394,6 +394,29 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
     return result;
 }
 
+/**
+ * Removes the special .SYNC dependents from the list, starting at the index k, and remembers
+ * for each of the other dependents which ones must be built before.
+ */
+void Parser::extractSyncPoints(QStringList &dependents, int k)
+{
+    QStringList syncDeps;
+    for (int i = k; i < dependents.count();) {
+        if (dependents.at(i) == QLatin1String(".SYNC")) {
+            dependents.removeAt(i);
+            if (dependents.count() == i)
+                break;
+            if (i > k) {
+                syncDeps = dependents.mid(k, i - k);
+                k = i;
+            }
+        } else {
+            m_syncPoints[dependents.at(i)] += syncDeps;
+            ++i;
+        }
+    }
+}
+
 void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int commandSeparatorPos)
 {
     QString target = m_line.left(separatorPos).trimmed();
@@ -427,26 +450,6 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     QStringList dependents = splitTargetNames(value);
     dependents = expandWildcards(m_makefile->dirPath(), dependents);
 
-    // handle the special .SYNC dependents
-    {
-        QStringList syncDeps;
-        int k = 0;
-        for (int i=0; i < dependents.count();) {
-            if (dependents.at(i) == QLatin1String(".SYNC")) {
-                dependents.removeAt(i);
-                if (dependents.count() == i)
-                    break;
-                if (i > k) {
-                    syncDeps = dependents.mid(k, i - k);
-                    k = i;
-                }
-            } else {
-                m_syncPoints[dependents.at(i)] += syncDeps;
-                ++i;
-            }
-        }
-    }
-
     foreach (const QString& t, targets) {
         if (t == QStringLiteral(".NOTPARALLEL")) {
             m_makefile->setParallelExecutionDisabled(true);
@@ -468,8 +471,10 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             descblock->m_canAddCommands = canAddCommands;
             canAddCommands = DescriptionBlock::ACSEnabled;
         }
+        const int firstNewDependent = descblock->m_dependents.count();
         descblock->m_dependents.append(dependents);
         descblock->expandFileNameMacrosForDependents();
+        extractSyncPoints(descblock->m_dependents, firstNewDependent);
 
         if (!commands.isEmpty()) {
             if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())
diff --git a/src/jomlib/parser.h b/src/jomlib/parser.h
index fff3b60..cfd4d70 100644
--- a/src/jomlib/parser.h
+++ b/src/jomlib/parser.h
@@ -57,6 +57,7 @@ private:
     bool isInferenceRule(const QString& line);
     bool isDotDirective(const QString& line);
     DescriptionBlock* createTarget(const QString& targetName);
+    void extractSyncPoints(QStringList &dependents, int k);
     void parseDescriptionBlock(int separatorPos, int separatorLength, int commandSeparatorPos);
     void parseInferenceRule();
     void parseDotDirective();
-- 
2.43.0


From 31013bff7953acf565b49a0c03d0f8100eaa4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:38 +0000
Subject: [PATCH 15/40] fix: .SYNC must wait for all dependents before it

In 'a .SYNC file.txt .SYNC b', b was made to wait only for file.txt, which
is no target and cannot be made to wait for a itself.
---
 src/jomlib/parser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 4dda195..60f730b 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -406,10 +406,7 @@ void Parser::extractSyncPoints(QStringList &dependents, int k)
             dependents.removeAt(i);
             if (dependents.count() == i)
                 break;
-            if (i > k) {
-                syncDeps = dependents.mid(k, i - k);
-                k = i;
-            }
+            syncDeps = dependents.mid(k, i - k);
         } else {
             m_syncPoints[dependents.at(i)] += syncDeps;
             ++i;
-- 
2.43.0


From d42feae7ddfb324dae4188701950f5121c36e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 16/40] fix: buffered output of a command could be mixed with
 direct output of another

Both are written by different threads, in several pieces and with the
stream temporarily in binary mode.
---
 src/jomlib/jomprocess.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index eba65c2..e89a52e 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -53,6 +53,7 @@
 namespace NMakeFile {
 
 Q_GLOBAL_STATIC(QElapsedTimer, runtime)
+Q_GLOBAL_STATIC(QMutex, consoleMutex)
 
 struct Pipe
 {
@@ -528,6 +529,8 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
             buffers.append(TimeStampedBuffer(runtime()->elapsed(), data));
             outputBufferLock.unlock();
         } else {
+            // The main thread might be printing the buffered output of another process.
+            QMutexLocker locker(consoleMutex());
             fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);
         }
 
@@ -543,6 +546,7 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
 
 void Process::printBufferedOutput()
 {
+    QMutexLocker locker(consoleMutex());
     while (!d->stdoutChannel.buffers.isEmpty()
         || !d->stderrChannel.buffers.isEmpty())
     {
-- 
2.43.0


From 8e1cba9331cd3e91000dd150f500d65d3e5337a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:24 +0000
Subject: [PATCH 17/40] fix: do not poll for the exit code when no process is
 running

The handle is invalid then, which GetExitCodeProcess takes for jom itself.
The timers were re-armed for ever and could end the wait for the output of
a later process.
---
 src/jomlib/jomprocess.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index e89a52e..9b181d0 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -411,6 +411,10 @@ void Process::start(const QString &commandLine)
 
 void Process::tryToRetrieveExitCode()
 {
+    // This is called for each output channel and for the end of the process. Only the first call counts.
+    if (m_state != Running)
+        return;
+
     if (d->exitCode == STILL_ACTIVE)
         if (!GetExitCodeProcess(d->hProcess, &d->exitCode))
             d->exitCode = STILL_ACTIVE;
-- 
2.43.0


From 9c820bfc0caaafe82142d62192981da010f3e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:50 +0000
Subject: [PATCH 18/40] fix: close the pipes if a process cannot be started

Six handles were leaked each time, e.g. for every command that turned out to
be a shell builtin.
---
 src/jomlib/jomprocess.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 9b181d0..9305aef 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -130,6 +130,7 @@ public:
     }
 
     bool startRead();
+    void closePipes();
 
     Process *q;
     HANDLE hProcess;
@@ -363,6 +364,7 @@ void Process::start(const QString &commandLine)
     IoCompletionPort::instance()->registerObserver(&d->stdoutChannel, d->stdoutPipe.hRead);
     IoCompletionPort::instance()->registerObserver(&d->stderrChannel, d->stderrPipe.hRead);
     if (!d->startRead()) {
+        d->closePipes();
         m_state = NotRunning;
         emit error(FailedToStart);
         qWarning("Can't read output channels.");
@@ -391,6 +393,7 @@ void Process::start(const QString &commandLine)
     free(strCommandLine);
     strCommandLine = 0;
     if (!bResult) {
+        d->closePipes();
         m_state = NotRunning;
         emit error(FailedToStart);
         return;
@@ -466,6 +469,17 @@ bool ProcessPrivate::startRead()
     return stdoutChannel.startRead() && stderrChannel.startRead();
 }
 
+void ProcessPrivate::closePipes()
+{
+    IoCompletionPort::instance()->unregisterObserver(&stdoutChannel);
+    IoCompletionPort::instance()->unregisterObserver(&stderrChannel);
+    Pipe *pipes[] = { &stdinPipe, &stdoutPipe, &stderrPipe };
+    for (size_t i = 0; i < sizeof(pipes) / sizeof(pipes[0]); ++i) {
+        safelyCloseHandle(pipes[i]->hWrite);
+        safelyCloseHandle(pipes[i]->hRead);
+    }
+}
+
 /**
  * Starts the asynchronous read operation.
  * Returns true, if initiating the read operation was successful.
-- 
2.43.0


From 46843145c90c841625cd5148712e10dfd665fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:50 +0000
Subject: [PATCH 19/40] fix: modulo by zero in a preprocessor expression
 crashed jom

A % B with B == 0 trapped, as did the division of the least integer by -1.
---
 src/jomlib/ppexpr.g         | 14 +++++++++++---
 src/jomlib/ppexprparser.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index f826008..e8e2676 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -373,16 +373,24 @@ term5       ::= term5 DIV term6;
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        // Dividing by -1 would trap for the least integer.
+        sym(1).num = (rhs == -1) ? int(0u - unsigned(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 ./
 
 term5       ::= term5 MOD term6;
 /.
-    case $rule_number: // $rule
-        sym(1).num %= sym(3).num;
+    case $rule_number: { // $rule
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 ./
 
 term6 ::= primary;
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 7af643b..81a35e0 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -211,13 +211,21 @@ bool PPExprParser::parse(const char* str)
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        // Dividing by -1 would trap for the least integer.
+        sym(1).num = (rhs == -1) ? int(0u - unsigned(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 
-    case 26: // term5
-        sym(1).num %= sym(3).num;
+    case 26: { // term5
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 
     case 28: // term6
         sym(1).num = -sym(2).num;
-- 
2.43.0


From 6c8353b39a18c6112a4fdd054a3fb419cca699c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:41 +0000
Subject: [PATCH 20/40] fix: inline files of makefiles in unicode were empty,
 and text after them was lost

The text stream reads ahead, so the file cannot be read directly.
---
 src/jomlib/makefilelinereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..d3f43c9 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,13 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        if (m_textStream.device()) {
+            // The text stream reads ahead. What it has read is not available in the file anymore.
+            QString str = m_textStream.readLine();
+            if (!str.isNull())
+                str.append(QLatin1Char('\n'));
+            return MakefileLine{ str };
+        }
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From 7fb9d6f90fa77cf460592304d8707bb1b7d8ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 21/40] fix: macros in the argument of a preprocessing
 directive were expanded up to three times

A $$ ended up as invalid macro invocation.
---
 src/jomlib/preprocessor.cpp | 12 ++++++++----
 src/jomlib/preprocessor.h   |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..1b96269 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -260,7 +260,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     } else if (directive == QLatin1String("INCLUDE")) {
         internalOpenFile(findIncludeFile(value));
     } else if (directive == QLatin1String("IF")) {
-        bool followElseBranch = evaluateExpression(value) == 0;
+        bool followElseBranch = evaluateExpandedExpression(value) == 0;
         enterConditional(followElseBranch);
         if (followElseBranch) {
             skipUntilNextMatchingConditional();
@@ -286,7 +286,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     } else if (directive == QLatin1String("ELSEIF")) {
         if (conditionalDepth() == 0)
             error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top() || evaluateExpression(value) == 0) {
+        if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {
             skipUntilNextMatchingConditional();
         } else {
             m_conditionalStack.pop();
@@ -405,7 +405,6 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         }
     }
 
-    value = m_macroTable->expandMacros(value);
     removeInlineComments(value);
     return result;
 }
@@ -474,13 +473,18 @@ void Preprocessor::exitConditional()
 }
 
 int Preprocessor::evaluateExpression(const QString& expr)
+{
+    return evaluateExpandedExpression(m_macroTable->expandMacros(expr));
+}
+
+int Preprocessor::evaluateExpandedExpression(const QString& expr)
 {
     if (!m_expressionParser) {
         m_expressionParser = new PPExprParser;
         m_expressionParser->setMacroTable(m_macroTable);
     }
 
-    if (!m_expressionParser->parse(qPrintable(m_macroTable->expandMacros(expr)))) {
+    if (!m_expressionParser->parse(qPrintable(expr))) {
         QString msg = QLatin1String("Can't evaluate preprocessor expression.");
         msg += QLatin1String("\nerror: ");
         msg += QString::fromLatin1(m_expressionParser->errorMessage());
diff --git a/src/jomlib/preprocessor.h b/src/jomlib/preprocessor.h
index b268c72..19aab90 100644
--- a/src/jomlib/preprocessor.h
+++ b/src/jomlib/preprocessor.h
@@ -70,6 +70,7 @@ private:
     bool parsePreprocessingDirective(const QString& line);
     QString findIncludeFile(const QString &filePathToInclude);
     bool isPreprocessingDirective(const QString& line, QString& directive, QString& value);
+    int evaluateExpandedExpression(const QString& expr);
     void skipUntilNextMatchingConditional();
     void error(const QString& msg);
     void enterConditional(bool followElseBranch);
-- 
2.43.0


From c281d16428b23d6895e0ba694df4d492c68982d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:01 +0000
Subject: [PATCH 22/40] fix: an invalid macro invocation in lines that are
 skipped was an error

Also, the macros of an !ELSEIF were expanded twice.
---
 src/jomlib/preprocessor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 1b96269..ac9eea9 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -425,8 +425,8 @@ void Preprocessor::skipUntilNextMatchingConditional()
         if (line.content.startsWith(QLatin1Char('!')))
             completePreprocessingDirectiveLine(line);
 
-        QString expandedLine = m_macroTable->expandMacros(line.content);
-        if (!isPreprocessingDirective(expandedLine, directive, value))
+        // Do not expand macros. The lines that are skipped may contain anything.
+        if (!isPreprocessingDirective(line.content, directive, value))
             continue;
 
         if (directive == QLatin1String("ENDIF"))
@@ -443,7 +443,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
 
         if (depth == 0) {
             if (token == TOK_ELSE) {
-                m_linesPutBack.append(expandedLine);
+                m_linesPutBack.append(line.content);
                 return;  // found the next matching ELSE
             }
             if (token == TOK_ENDIF) {
-- 
2.43.0


From f5d37afbd36d3abe4bc2abbbb13a93cd31106a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 23/40] fix: changing an environment macro in the makefile did
 not change the environment

The source of the macro was overwritten before it was looked at.
---
 src/jomlib/macrotable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ff4d3f6..b12859d 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -136,9 +136,10 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
         throw Exception(msg.arg(name));
     }
 
-    macroData->source = source;
     if (macroData->source == MacroSource::Environment)
-        setEnvironmentVariable(name, expandMacros(macroData->value));
+        setEnvironmentVariable(expandMacros(name), expandMacros(macroData->value));
+    else
+        macroData->source = source;
 }
 
 void MacroTable::predefineValue(const QString &name, const QString &value)
-- 
2.43.0


From 97d69d871b82230330bf292c6144d959bfb75e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:30 +0000
Subject: [PATCH 24/40] fix: predefined macros took precedence over environment
 variables

MAKE and MAKEDIR still describe the running jom.
---
 src/jomlib/macrotable.cpp      | 3 +++
 src/jomlib/makefilefactory.cpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index b12859d..06c5b69 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -144,6 +144,9 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
 
 void MacroTable::predefineValue(const QString &name, const QString &value)
 {
+    // Every other definition takes precedence over a predefined macro.
+    if (isMacroDefined(name))
+        return;
     setMacroValueImpl(name, value, MacroSource::Predefinition);
 }
 
diff --git a/src/jomlib/makefilefactory.cpp b/src/jomlib/makefilefactory.cpp
index 6cc05bb..bc990a3 100644
--- a/src/jomlib/makefilefactory.cpp
+++ b/src/jomlib/makefilefactory.cpp
@@ -133,8 +133,8 @@ bool MakefileFactory::apply(const QStringList& commandLineArguments, Options **o
 
     readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);
     if (!options->ignorePredefinedRulesAndMacros) {
-        macroTable->predefineValue("MAKE", encloseInDoubleQuotesIfNeeded(options->fullAppPath));
-        macroTable->predefineValue("MAKEDIR", encloseInDoubleQuotesIfNeeded(
+        macroTable->setMacroValue("MAKE", encloseInDoubleQuotesIfNeeded(options->fullAppPath));
+        macroTable->setMacroValue("MAKEDIR", encloseInDoubleQuotesIfNeeded(
                                        QDir::toNativeSeparators(QDir::currentPath())));
         macroTable->predefineValue("AS", "ml");       // Macro Assembler
         macroTable->predefineValue("ASFLAGS", QString());
-- 
2.43.0


From 152982e4a1ed2dc31cd537edfdbe28b870129284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:50 +0000
Subject: [PATCH 25/40] fix: a dollar sign in the name of an environment
 variable was an error

---
 src/jomlib/macrotable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 06c5b69..7c66460 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -65,17 +65,18 @@ void MacroTable::defineEnvironmentMacroValue(const QString& name, const QString&
         return;
     }
     QString expandedValue;
+    MacroData *macroData = 0;
     try {
         // The make variable gets the unexpanded value.
         // The environment variable gets the expanded value.
         expandedValue = expandMacros(value);
+        macroData = internalSetMacroValue(upperName, value);
     } catch (const Exception &) {
-        // Expanding the value caused an error. We don't create a Make variable for it.
+        // Expanding the name or the value caused an error. We don't create a Make variable for it.
         // See section "Environment-Variable Macros" in the nmake documentation.
         // Infamous example: PROMPT=$+$P$_$G
         return;
     }
-    MacroData* macroData = internalSetMacroValue(upperName, value);
     if (!macroData)
         return;
     macroData->source = MacroSource::Environment;
-- 
2.43.0


From fc7eeaa40cba08171b65c39d848a4c431217dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 26/40] fix: text after a second !ELSE was not skipped if the
 text after the first was used

---
 src/jomlib/preprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index ac9eea9..b2dd1fd 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -282,6 +282,9 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             error(QLatin1String("unexpected ELSE"));
         if (!m_conditionalStack.top()) {
             skipUntilNextMatchingConditional();
+        } else {
+            m_conditionalStack.pop();
+            m_conditionalStack.push(false);
         }
     } else if (directive == QLatin1String("ELSEIF")) {
         if (conditionalDepth() == 0)
-- 
2.43.0


From 709ba1528ab5e2c92b49175c2685ade96f4e978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:50 +0000
Subject: [PATCH 27/40] fix: MAKEFLAGS passed on the first of several /J
 options, although the last one counts

---
 src/jomlib/options.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..03d005a 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -31,6 +31,7 @@
 #include <cstdlib>
 
 #include <QFile>
+#include <QRegExp>
 #include <QSet>
 #include <QThread>
 
@@ -304,8 +305,10 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    // The last number wins. Replace the one that is already in the flags.
+                    makeflags.remove(QRegExp(QLatin1String("[Jj][0-9]*")));
+                    makeflags += ch;
+                    makeflags += nJobsStr;
                     break;
                 }
             case 'K':
-- 
2.43.0


From 966e5b7a33f2299a81e43648721f06731a7e47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:32 +0000
Subject: [PATCH 28/40] fix: a caret in the search text of a macro substitution
 removed a character of the replacement

---
 src/jomlib/macrotable.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 7c66460..3080eed 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -418,8 +418,13 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
     Substitution result;
     result.before = str.mid(substitutionStartIdx, equalsSignIdx - substitutionStartIdx);
     result.after = str.mid(equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx - 1);
-    for (int i=quotePositions.count() - 1; i >= 0; --i)
-        result.after.remove(quotePositions.at(i) - equalsSignIdx - 1, 1);
+    for (int i=quotePositions.count() - 1; i >= 0; --i) {
+        const int quotePosition = quotePositions.at(i);
+        if (quotePosition < equalsSignIdx)
+            result.before.remove(quotePosition - substitutionStartIdx, 1);
+        else
+            result.after.remove(quotePosition - equalsSignIdx - 1, 1);
+    }
     return result;
 }
 
-- 
2.43.0


From 180aaebb75dd930e6206b96258104f2c009afade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 29/40] fix: file name macros in parentheses took the next
 character with them, or left a part if they had no value

$(@) and the like replaced one character too many, modifiers and substitutions
of an empty value were left in the text, and a file name macro right behind an
empty one was not expanded.
---
 src/jomlib/makefile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..b18e54e 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -227,9 +227,11 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             bool substitutionStateKnown = false;
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 3);
+            if (replacementLength == 0) {
+                str.remove(idx - 1, 3);
+                --idx;
             } else {
+                int macroInvokationEnd = idx + replacementLength + 2;
                 ch = str.at(idx + replacementLength + 1).toLatin1();
                 switch (ch)
                 {
@@ -270,6 +272,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                 case ')':
                     // No file name modifier given.
                     substitutionStateKnown = true;
+                    macroInvokationEnd = idx + replacementLength + 1;
                     break;
                 default:
                     // TODO: yield error? ignore for now
@@ -281,27 +284,24 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                     substitutionIdx = idx + replacementLength + 3;
 
                 if (substitutionIdx > 0) {
-                    int macroInvokationEnd;
                     const MacroTable::Substitution substitution =
                             MacroTable::parseSubstitutionStatement(str, substitutionIdx, macroInvokationEnd);
                     for (int i = 0; i < macroValues.count(); ++i) {
                         MacroTable::applySubstitution(substitution, macroValues[i]);
                     }
-                    replacementLength = macroInvokationEnd - idx - 2;  // because we're later adding 4
                 }
 
                 const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 4, macroValue);
+                str.replace(idx - 1, macroInvokationEnd - idx + 2, macroValue);
+                // Proceed right behind the value, which might be empty.
+                idx += macroValue.length() - 1;
             }
         } else {
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 1);
-            } else {
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 1, macroValue);
-            }
+            const QString macroValue = joinFileNameMacroValues(macroValues);
+            str.replace(idx - 1, replacementLength + 1, macroValue);
+            idx += macroValue.length() - 1;
         }
     }
 }
-- 
2.43.0


From 4a9a313000bbd754b28510e4b0c824516ae89649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 30/40] fix: macros in the names of inline files of inference
 rules were not expanded

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index b18e54e..f94a956 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -629,6 +629,8 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     for (; it != itEnd; ++it) {
         Command& command = *it;
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
         }
@@ -659,6 +661,8 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     for (; it != itEnd; ++it) {
         Command& command = *it;
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependents);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependents);
         }
-- 
2.43.0


From f0b4b0887fe17424d15cd0d290114ac134de12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 31/40] fix: $* and $(@R) cut off the path at a dot in the name
 of a directory

---
 src/jomlib/makefile.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index f94a956..ba438c1 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -168,6 +168,16 @@ void DescriptionBlock::expandFileNameMacros(Command& command, int depIdx)
     }
 }
 
+/**
+ * Removes the extension from a file name. A dot in the name of a directory doesn't count.
+ */
+static void removeFileExtension(QString &filePath)
+{
+    const int k = filePath.lastIndexOf(QLatin1Char('.'));
+    if (k > filePath.lastIndexOf(QLatin1Char('\\')) && k > filePath.lastIndexOf(QLatin1Char('/')))
+        filePath.truncate(k);
+}
+
 inline void quoteStringIfNeeded(QString& str)
 {
     if (str.contains(QLatin1Char(' ')) || str.contains(QLatin1Char('\t'))) {
@@ -259,10 +269,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                     break;
                 case 'R':
                     for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('.'));
-                        if (k > -1)
-                            macroValue = macroValue.left(k);
+                        removeFileExtension(macroValues[i]);
                     }
                     break;
                 case ':':
@@ -334,9 +341,7 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 } else {
                     replacementLength = 1;
                     QString tgt = targetName();
-                    int idx = tgt.lastIndexOf(QLatin1Char('.'));
-                    if (idx > -1)
-                        tgt.resize(idx);
+                    removeFileExtension(tgt);
                     results += tgt;
                 }
             }
-- 
2.43.0


From 8ff3539e64a4c4446908bc50231f463c6856754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:01 +0000
Subject: [PATCH 32/40] fix: a target executed for two requested targets got
 removed inline files and old file name macros the second time

---
 src/jomlib/commandexecutor.cpp | 4 ++++
 src/jomlib/commandexecutor.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 2362db2..176d206 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -72,6 +72,7 @@ void CommandExecutor::start(DescriptionBlock* target)
 {
     m_pTarget = target;
     m_active = true;
+    m_originalCommands = target->m_commands;
 
     if (target->m_commands.isEmpty()) {
         finishExecution(false);
@@ -134,6 +135,9 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 void CommandExecutor::finishExecution(bool commandFailed)
 {
     m_active = false;
+    // The target can be executed again for another requested target, with other values of
+    // file name macros and other inline files.
+    m_pTarget->m_commands = m_originalCommands;
     emit finished(this, commandFailed);
 }
 
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 04b01e1..705f4fc 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -78,6 +78,7 @@ private:
     static QString      m_tempPath;
     Process             m_process;
     DescriptionBlock*   m_pTarget;
+    QList<Command>      m_originalCommands;
 
     struct TempFile
     {
-- 
2.43.0


From e79e863bfffb519983b2c09d1c7b38afe8a9a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:16 +0000
Subject: [PATCH 33/40] fix: $(@D) ignored slashes, it was . for dir/file

---
 src/jomlib/makefile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index ba438c1..9ed69c0 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -248,7 +248,8 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                 case 'D':
                     for (int i = 0; i < macroValues.count(); ++i) {
                         QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('\\'));
+                        int k = qMax(macroValue.lastIndexOf(QLatin1Char('\\')),
+                                     macroValue.lastIndexOf(QLatin1Char('/')));
                         if (k == -1)
                             macroValue = QLatin1String(".");
                         else
-- 
2.43.0


From 3fc2de8f4c499f3985af555b284c0fcbdc7b6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:34 +0000
Subject: [PATCH 34/40] fix: recognise a CRLF line end that is read in two
 parts

A line whose CR is the last character that fits into the line buffer kept
the CR, and a backslash or caret in front of it was no continuation.
---
 src/jomlib/makefilelinereader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index d3f43c9..2a4d49f 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -134,6 +134,10 @@ MakefileLine MakefileLineReader::readLine_impl_local8bit()
             if (moreBytesRead <= 0)
                 break;
             bytesRead += moreBytesRead;
+
+            // If "\r\n" is read in two parts, QIODevice::Text doesn't translate it.
+            if (m_lineBuffer[bytesRead - 1] == '\n' && m_lineBuffer[bytesRead - 2] == '\r')
+                m_lineBuffer[--bytesRead - 1] = '\n';
         }
 
     } while (m_lineBuffer[0] == '#');
-- 
2.43.0


From 59a040e0154eb116b2aeef2faf2135cfb3a739e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:21 +0000
Subject: [PATCH 35/40] fix: EXIST(a) && EXIST(b) was one file name: the
 argument ends at the closing parenthesis

---
 src/jomlib/ppexpr-lex.inc | 23 +++++++++++++++++++++++
 src/jomlib/ppexpr.l       | 23 +++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 5ee300d..45e545d 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -553,6 +553,27 @@ static int yywrap()
     return 1;
 }
 
+/**
+ * Returns the length of text up to the parenthesis that closes the first one.
+ * Parentheses in a quoted file name don't count.
+ */
+static int argumentLength(const char *text, int length)
+{
+    int depth = 0;
+    bool quoted = false;
+    for (int i = 0; i < length; ++i) {
+        if (text[i] == '\"')
+            quoted = !quoted;
+        else if (quoted)
+            continue;
+        else if (text[i] == '(')
+            ++depth;
+        else if (text[i] == ')' && --depth == 0)
+            return i + 1;
+    }
+    return length;
+}
+
 #define INITIAL 0
 #define STATE_STRING 1
 #define STATE_DEFINED 2
@@ -979,6 +1000,7 @@ case 32:
 YY_RULE_SETUP
 {
         BEGIN(INITIAL);
+        yyless(argumentLength(yytext, static_cast<int>(yyleng)));
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
         fileName.remove(0, idx + 1);
@@ -997,6 +1019,7 @@ YY_RULE_SETUP
 case 33:
 YY_RULE_SETUP
 {
+    yyless(argumentLength(yytext, static_cast<int>(yyleng)));
     QByteArray fileName(yytext);
     int idx = fileName.indexOf('(');
     fileName.remove(0, idx + 1);
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 670c683..b7db8c3 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -44,6 +44,27 @@ static int yywrap()
 {
     return 1;
 }
+
+/**
+ * Returns the length of text up to the parenthesis that closes the first one.
+ * Parentheses in a quoted file name don't count.
+ */
+static int argumentLength(const char *text, int length)
+{
+    int depth = 0;
+    bool quoted = false;
+    for (int i = 0; i < length; ++i) {
+        if (text[i] == '\"')
+            quoted = !quoted;
+        else if (quoted)
+            continue;
+        else if (text[i] == '(')
+            ++depth;
+        else if (text[i] == ')' && --depth == 0)
+            return i + 1;
+    }
+    return length;
+}
 %}
 
 %x STATE_STRING
@@ -117,6 +138,7 @@ static int yywrap()
     [:blank:]+     /* eat whitespace */
     "(".+")" {
         BEGIN(INITIAL);
+        yyless(argumentLength(yytext, static_cast<int>(yyleng)));
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
         fileName.remove(0, idx + 1);
@@ -133,6 +155,7 @@ static int yywrap()
 }
 
 "EXIST"[:blank:]*"(".*")" {
+    yyless(argumentLength(yytext, static_cast<int>(yyleng)));
     QByteArray fileName(yytext);
     int idx = fileName.indexOf('(');
     fileName.remove(0, idx + 1);
-- 
2.43.0


From d43cd822cb247b785a132140d415d80142fb5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 36/40] fix: recognise inference rules followed by a comment or
 blanks, do not take comments for values of dot directives

---
 src/jomlib/parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 60f730b..63bcd0c 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -41,7 +41,7 @@ Parser::Parser()
 :   m_preprocessor(0)
 {
     m_rexDotDirective.setPattern(QLatin1String("^\\.(IGNORE|PRECIOUS|SILENT|SUFFIXES)\\s*:(.*)"));
-    m_rexInferenceRule.setPattern(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)(:{1,2})"));
+    m_rexInferenceRule.setPattern(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)(:{1,2})\\s*"));
     m_rexSingleWhiteSpace.setPattern(QLatin1String("\\s"));
 }
 
@@ -84,15 +84,15 @@ void Parser::apply(Preprocessor* pp,
         readLine();
         while (!m_line.isNull()) {
             QString expandedLine = m_preprocessor->macroTable()->expandMacros(m_line);
+            QString uncommentedLine = expandedLine;
+            Preprocessor::removeInlineComments(uncommentedLine);
             if (isEmptyLine(expandedLine)) {
                 readLine();
-            } else if (isDotDirective(expandedLine)) {
-                m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
+            } else if (isDotDirective(uncommentedLine)) {
+                m_line = uncommentedLine;
                 parseDotDirective();
-            } else if (isInferenceRule(expandedLine)) {
-                m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
+            } else if (isInferenceRule(uncommentedLine)) {
+                m_line = uncommentedLine;
                 parseInferenceRule();
             } else if (isDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos)) {
                 parseDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos);
-- 
2.43.0


From 02de8b3db30d8bff5244143a617dc5e7f004e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:15 +0000
Subject: [PATCH 37/40] fix: unescape ^# in description blocks without a
 comment

The caret of an escaped number sign was removed from the names of targets and
dependents only if the line had a comment too. Remove it in any case, but not
from the command behind the semicolon.
---
 src/jomlib/parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 63bcd0c..b724902 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -210,18 +210,23 @@ static int removeCommentsAndFindCommandSeparator(QString& line)
         cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
     } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
 
-    if (commentIdx == cmdSepIdx)  // equality means, they are both -1
-        return -1;
-
-    if ((0 <= commentIdx && commentIdx < cmdSepIdx) || cmdSepIdx == -1) {
+    if (0 <= commentIdx && (commentIdx < cmdSepIdx || cmdSepIdx == -1)) {
         // The # indicates a comment.
         line.truncate(commentIdx);
-        for (int i=toRemove.count() - 1; i >= 0; i--)
-            line.remove(toRemove.at(i), 1);
         cmdSepIdx = -1;
     } else {
         // The # is inside the command and not a comment.
     }
+
+    // Remove the ^ characters of escaped # characters. The command is left alone.
+    for (int i=toRemove.count() - 1; i >= 0; i--) {
+        if (cmdSepIdx == -1) {
+            line.remove(toRemove.at(i), 1);
+        } else if (toRemove.at(i) < cmdSepIdx) {
+            line.remove(toRemove.at(i), 1);
+            --cmdSepIdx;
+        }
+    }
     return cmdSepIdx;
 }
 
-- 
2.43.0


From c152569d740aa64e8f0c671b32c981fea03cc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:33 +0000
Subject: [PATCH 38/40] fix: expand macros in the value of INCLUDE when
 searching include files

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b2dd1fd..60b9683 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -350,7 +350,7 @@ QString Preprocessor::findIncludeFile(const QString &filePathToInclude)
 
     if (angleBrackets) {
         // Search through all directories in the INCLUDE macro.
-        const QString includeVar = m_macroTable->macroValue(QLatin1String("INCLUDE"))
+        const QString includeVar = m_macroTable->expandMacros(QLatin1String("$(INCLUDE)"))
                 .replace(QLatin1Char('\t'), QLatin1Char(' '));
         const QStringList includeDirs = includeVar.split(QLatin1Char(';'), QString::SkipEmptyParts);
         foreach (const QString& includeDir, includeDirs) {
-- 
2.43.0


From 896859326fe453cc37099f16062bd9d58da81435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:12 +0000
Subject: [PATCH 39/40] fix: ignore blanks around the file name of an include
 without exclamation mark

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 60b9683..39a42b9 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -389,7 +389,7 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
     bool result = true;
     if (oldStyleIncludeDirectiveFound) {
         directive = QLatin1String("INCLUDE");
-        value = line.mid(8);
+        value = line.mid(8).trimmed();
     } else {
         result = m_rexPreprocessingDirective.exactMatch(line);
         if (result) {
-- 
2.43.0


From f2d69498ef810b6bf59b9ef602d4b5e08cf021ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:20 +0000
Subject: [PATCH 40/40] fix: find the comment that follows an escaped # at once

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 39a42b9..9b59ae9 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -510,7 +510,7 @@ void Preprocessor::removeInlineComments(QString& line)
     while (true) {
         idx = line.indexOf(QLatin1Char('#'), idx + 1);
         if (idx > 0 && line.at(idx - 1) == QLatin1Char('^')) {
-            line.remove(idx - 1, 1);
+            line.remove(--idx, 1);
             continue;
         }
         break;
-- 
2.43.0

