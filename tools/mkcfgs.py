#!/usr/bin/env python3
"""Writes the TLC configurations of MCDsari and MCLoop (quick ones and *Deep ones for the thorough tier)."""
import glob
import os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
C = '''CONSTANTS
  Model = "%s"
  Horizon = %d
  MaxRuns = %d
  MaxTrig = %d
  MaxSig = %d
  MaxCrash = %d
  MaxCfg = %d
  Sigs = {%s}
  Fmts = {%s}
  TrigJobs = {%s}
'''
T = "SPECIFICATION Spec\n" + C + '''  Poll = 2
INVARIANTS Accounted OneRecurring PendOfKnownJobs NonConcPend NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
'''
TL = "SPECIFICATION LSpec\n" + C + '''  Poll = %d
  Bug = "%s"
  Anywhere = %s
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
'''


def w(n, *a):
    open(n + '.cfg', 'w').write(T % a)


def wl(n, *a):
    open(n + '.cfg', 'w').write(TL % a)


TG = "SPECIFICATION GSpec\n" + C + '''  Poll = %d
  Rare = %d
  Bug = ""
  Anywhere = FALSE
  Do <- Step
CHECK_DEADLOCK FALSE
'''


def wg(n, *a):
    open(n + '.cfg', 'w').write(TG % a)


for fn in glob.glob("MCLoop*.cfg") + glob.glob("MCGen*.cfg"):
    os.unlink(fn)
J = '"json"'
w('MCgroups', 'groups', 3, 2, 1, 0, 0, 0, '', J, '"b"')
w('MCreload', 'groups', 3, 2, 0, 1, 0, 1, '"HUP"', J, '"b"')
w('MCtrigger', 'trigger', 3, 2, 2, 0, 0, 0, '', J, '"a"')
w('MCkill', 'kill', 7, 1, 0, 2, 0, 0, '"TERM"', J, '"a"')
w('MCcrash', 'trigger', 3, 2, 0, 1, 1, 1, '"HUP"', J, '"a"')
w('MCgroupsDeep', 'groups', 4, 3, 2, 0, 0, 0, '', J, '"b"')
w('MCreloadDeep', 'groups', 4, 2, 1, 1, 0, 1, '"HUP"', J, '"b"')
w('MCtriggerDeep', 'trigger', 4, 2, 2, 1, 0, 0, '"USR1"', '"json", "yaml"', '"a", "b"')
w('MCkillDeep', 'kill', 8, 2, 1, 2, 0, 0, '"TERM", "INT"', J, '"b"')
w('MCcrashDeep', 'trigger', 4, 2, 1, 1, 1, 1, '"HUP", "TERM"', J, '"a"')

# the loop of the implementation (MCLoop): model -> (quick, deep)
G = ('groups', 5, 2, 1, 1, 0, 1, '"HUP"', J, '"b"', 5)
TR = ('trigger', 4, 2, 2, 1, 0, 0, '"USR1"', J, '"a"', 2)
K = ('kill', 8, 2, 1, 2, 0, 0, '"TERM", "INT"', J, '"b"', 5)
R = ('trigger', 4, 2, 1, 2, 0, 1, '"HUP", "QUIT"', J, '"a"', 2)
W = ('wake', 7, 3, 0, 0, 0, 0, '', J, '', 5)
Q = ('retry', 7, 3, 0, 0, 0, 0, '', J, '', 6)
X = ('trigger', 4, 2, 1, 1, 1, 1, '"HUP", "TERM"', J, '"a"', 3)
# smaller ones for every change
GQ = ('groups', 4, 2, 1, 1, 0, 1, '"HUP"', J, '"b"', 5)
KQ = ('kill', 8, 2, 0, 2, 0, 0, '"TERM", "INT"', J, '"b"', 5)
RQ = ('trigger', 4, 2, 1, 1, 0, 1, '"HUP", "QUIT"', J, '"a"', 2)
XQ = ('trigger', 4, 2, 1, 1, 1, 0, '"TERM"', J, '"a"', 3)
for n, m in (('groups', GQ), ('trigger', TR), ('kill', KQ), ('reload', RQ), ('crash', XQ), ('wake', W), ('retry', Q)):
    wl('MCLoop' + n, *m, '', 'FALSE')
wl('MCLoopgroupsDeep', 'groups', 6, 3, 2, 1, 0, 1, '"HUP"', J, '"b"', 5, '', 'FALSE')
wl('MCLoopmixDeep', 'mix', 4, 4, 1, 1, 0, 1, '"HUP"', J, '"c"', 5, '', 'FALSE')
wl('MCLooptriggerDeep', 'trigger', 5, 3, 2, 1, 0, 0, '"USR1"', '"json", "yaml"', '"a", "b"', 2, '', 'TRUE')
wl('MCLoopkillDeep', 'kill', 9, 2, 1, 2, 0, 0, '"TERM", "INT"', J, '"b"', 5, '', 'TRUE')
wl('MCLoopreloadDeep', 'trigger', 5, 2, 1, 2, 0, 1, '"HUP", "QUIT"', J, '"a"', 3, '', 'TRUE')
wl('MCLoopcrashDeep', 'trigger', 5, 2, 1, 1, 1, 1, '"HUP", "TERM"', J, '"a"', 3, '', 'TRUE')
# deliberate mistakes, each of which has to be found
for b, m in (("regroup", G), ("latesignal", G), ("oldruns", R), ("respawn", TR), ("norespawn", TR), ("nobackoff", Q), ("leak", G),
             ("unmarked", K), ("regrace", K), ("killwake", W), ("killtime", K)):
    wl('MCLoopBug_' + b, *m, b, 'FALSE')

# random walks which the real daemon follows: model, horizon, runs, triggers, signals, crashes, configurations
wg('MCGengroups', 'groups', 24, 30, 5, 2, 0, 2, '"HUP", "QUIT"', J, '"a", "b"', 3, 4)
wg('MCGentrigger', 'trigger', 20, 30, 6, 3, 0, 1, '"USR1", "HUP", "QUIT"', '"json", "yaml"', '"a", "b"', 4, 4)
wg('MCGenkill', 'kill', 30, 30, 4, 3, 0, 1, '"TERM", "INT", "HUP"', J, '"a", "b"', 5, 6)
wg('MCGenreload', 'trigger', 24, 30, 3, 4, 0, 4, '"HUP", "QUIT"', J, '"a", "b"', 4, 4)
wg('MCGencrash', 'trigger', 24, 30, 3, 2, 2, 2, '"HUP", "TERM", "QUIT"', J, '"a", "b"', 4, 5)
wg('MCGenwake', 'wake', 40, 30, 0, 2, 0, 0, '"USR1", "QUIT"', J, '"a"', 5, 6)
wg('MCGenretry', 'retry', 40, 30, 2, 2, 0, 0, '"USR1", "QUIT"', J, '"a"', 6, 6)
wg('MCGenmix', 'mix', 30, 40, 6, 4, 1, 2, '"HUP", "QUIT", "TERM"', J, '"a", "b", "c"', 4, 6)
