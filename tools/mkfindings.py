#!/usr/bin/env python3
"""Writes /verif/known_findings.json. 'known' entries suppress exactly the violations they match; 'fixed' entries suppress nothing."""
import json, os
F = [
 ('P01 P02', 'b477e13', "a described target listed behind .SYNC after one that has no description block of its own was not ordered (the loop over the group ended at the first undescribed name)"),
 ('P11', 'a379bd2', "after the live command ended, several running commands were switched to live output at once and their output was mixed"),
 ('P13', '690b7d3', "when a build was aborted jom waited only for the command line that was running, and could exit while a later command line of the same target was running"),
 ('P04 P13', 'f5983c3', "when preparing a target failed (missing dependent, inline file, exception) jom exited without waiting for running commands and without returning its job tokens"),
 ('P10', 'fa5ffdc', "a queued completion notification of an earlier command was applied to the read of the next command of the slot: output lost or duplicated"),
 ('P10', '494dabb', "output that was still in the pipe when the command's exit was noticed was dropped"),
 ('P05 P16 P09', '7fd1bb7', "an exit code of 259 (STILL_ACTIVE) made jom poll for ever; every poll left a timer behind; exit codes above 0x7fffffff were compared as negative numbers"),
 ('P16 P20', '062ae0a', "the pipe handles of a command that could not be started were never closed"),
 ('P20', '6e02076', "a command that could not be started made jom exit at once, without waiting for the others, even with /K"),
 ('P20', 'c2f09fd', "a failing semaphore acquisition made jom wait for ever"),
 ('P11', '9b4c133', "buffered output of a command was written in pieces between which live output of another command appeared"),
 ('P05', '169273e', "a '!' command in a target without dependents crashed jom"),
 ('P01 P02 P08', 'cac93de', "targets built by the batch of another target counted as done before the command of the batch had run: dependents were started too early, and with /K after a failed batch"),
 ('P14', '3436ba5', "'cd' to a relative directory was resolved against jom's own directory instead of the current one of the command block"),
 ('P12', 'dfe28c7', "the inline files of a target's last command were left over when the target failed, or deleted while still in use by a following command line"),
 ('P12', '9590682', "a target executed again in a later goal used the (deleted) inline files of its first execution"),
 ('P12 P20', 'cfa5ed8', "an inline file that could not be written completely was not noticed and the command ran with a truncated file"),
 ('P19', '35debc5', "/N created inline files in the file system"),
 ('P18', '2db18f5', "Ctrl-C raced with the creation and removal of inline files: files left over, crash"),
 ('P19', 'ab8bffb', "/DUMPGRAPH went on to build the other targets of the command line"),
 ('P19', '8d29799', "/N did not print the commands of targets that are out of date only because a dependent is"),
 ('P02', '3d07c3d', "time stamps cached for the first target of the command line were used for the following ones: commands not executed although their files had changed"),
 ('P17', '4f0a796', "a read error in a makefile, include file or command file counted as its end: the readable part was built"),
 ('P02', 'e57aa1e', "a target that was written in the same millisecond (or with a time stamp in the future) counted as up to date although a dependent does not exist"),
 ('P05 P09', '624b210', "a failing jom kept the token of a pending acquisition while it waited for its sub-joms, which waited for that token: the build never ended"),
 ('P02', '78115b9', "a newer source file of an inference rule of lower priority caused a rebuild by the rule of higher priority: commands of an up-to-date target executed"),
 ('P12 P17', '3944d1f', "in a UTF-8 or UTF-16 makefile the first inline file and everything behind it was silently dropped"),
 ('P17', '3413eba', "a transient read error while looking for the byte order mark made jom read a unicode makefile as an 8 bit one and build its mangled targets"),
 ('P02', '6743c0e', "members of a batch that were deleted and needed again by a later target of the command line were not built although the build reported success"),
 ('P14', '0838eaa', "a 'cd' to a file succeeded: the following commands of the target could not be started, or ran in another directory than after a failing, tolerated 'cd'"),
 ('P02 P19', 'f184fa0', "a wildcard like * among the dependents of a target matched the directories . and .. too: the target was out of date whenever anything was written there"),
 ('P02 P15', '39fc450', "$$@ macros among the dependents before .SYNC were handed to the targets behind it unexpanded: the build failed because of a dependent called '(@R).src'"),
 ('P02', '89911b8', "a target executed again in a later goal got the file name macros of its first execution: its commands were told of files that are not newer any more"),
 ('P20', '1bc7196', "a read of a command's output that could not be started was never tried again: a command (or sub-jom) that went on writing waited for ever"),
 ('P19', 'b224750', "/N counted a target without commands as updated: commands of targets that depend on it were printed although a build does not execute them"),
 ('P20', '3eb19e4', "an asynchronous read of a command's output that failed counted as the end of the output: a command that went on writing waited for ever"),
 ('P02', '1e5f5c4', "wildcards in a dependent's path into a directory whose name starts like the makefile's own directory were resolved against the wrong directory: nothing matched, changes went unnoticed"),
 ('P01 P19', 'b21fd36', "targets described with absolute names were found by relative dependents in some places only: not ordered behind .SYNC, their commands missing from dry runs, cycles unnoticed"),
 ('P05', '4eb9a11', "with /K the time needed after a failure grew exponentially with the number of paths through the dependency graph: 20 layers of two targets each kept jom spinning"),
 ('P14', '60cbfd8', "set \"name=value\" assigned a variable whose name began with a quotation mark"),
 ('P03', '3eb81c0', "with /J given twice $(MAKEFLAGS) contained the first number: sub-joms called with it ran jobs on a pool of their own"),
 ('P03', '2913769', "a number of jobs in JOMFLAGS or MAKEFLAGS that was overridden on the command line made every sub-jom run that many jobs on a pool of its own"),
 ('P06', '603bb84', "a sub-jom never ran more jobs than the machine has cores, whatever /J said"),
 ('P12', 'eadcb14', "inline files were written in code page 850 although 8 bit makefiles are read as Latin-1: every byte above 127 of their content was another one or a question mark"),
 ('P09 P14', '3f31cb1', "a blank or tab behind a command modifier ('- cd dir', '@ -1 tool') hid the modifiers and builtin commands behind it: exit codes were not tolerated, cd and set had no effect"),
 ('P02 P15', '69da4c2', "wildcards in dependents of a makefile in another directory (/F dir/makefile) were resolved against that directory: nothing or the wrong files matched"),
 ('P01', '353b47b', "a target behind a second .SYNC was not ordered after what is listed before the first one when nothing described stands between the two (an empty macro, or plain files only)"),
]
d = {'known': [], 'fixed': ['fixed: property=%s %s %s' % (p, c, w) for ps, c, w in F for p in ps.split()]}
json.dump(d, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
