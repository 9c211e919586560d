#!/usr/bin/env python3
"""Writes known_findings.jsonl: defects of the original code, repaired by "fix:" commits in /repo.
A fixed entry suppresses nothing; check.py only reads entries of kind "known"."""
import json, os
F = []
def fixed(commit, what, *props):
    for p in props: F.append(dict(kind='fixed', property=p, commit=commit, what=what, text='fixed: property=%s %s %s' % (p, commit, what)))
fixed('4276b7a', 'a stop request or a fatal error that arrived in the same wake as another event was overwritten by it: the watch went on after close was asked for, or went on after its event source failed', 'C03', 'C09')
fixed('1c548ec', 'a signal handler returning during epoll_wait (EINTR) ended the watch with e/sys/epoll_wait', 'C09')
fixed('20e79d1', 'file descriptor 0 (a program that closed its standard input) was taken for a failure by the fanotify adapter, and never closed', 'C10')
fixed('bb9c27d', 'a failing read of the fanotify queue (other than an empty queue) was taken for an empty queue: the watch went on blind', 'C09')
fixed('dd7c6d3', 'after a pair of fanotify rename records, the record that follows was looked for one record too early: the second half was told again, alone', 'C05')
fixed('492c02c', 'readlink failing (a directory handle that vanished) wrote a zero byte before the path buffer', 'C06')
fixed('99f130f', 'a fanotify record of unexpected version, of no name or of a path too long ended the batch silently: the records after it were lost and nobody was told', 'C05', 'C09')
fixed('7271925', 'an inotify rename between two directories named both sides after one of the two directories', 'C04')
fixed('05ef154', 'an inotify queue overflow (wd -1) was taken for a phantom event and not told to the user', 'C09')
fixed('06bd544', 'directories that readdir tells no type of (DT_UNKNOWN) were not walked; a path cut by snprintf was watched in place of the real one', 'C07')
fixed('30e4dd0', 'a fanotify rename pair of which only one side still resolves was told as nothing, or with an empty path', 'C05')
fixed('855d543', 'the end of an inotify batch was computed from a failed read (-1): a pointer before the buffer', 'C06')
fixed('4b80098', 'numbers with fewer digits than the buffer holds printed with the rest of the buffer (NUL characters) appended; the most negative number lost its last digit', 'C11')
fixed('cea7af4', 'a quote, backslash or control character in a path name broke the JSON an event is rendered as', 'C11', 'C14')
fixed('c80dd36', 'a time of more nanoseconds than fit overflowed a signed 64-bit number (292 years and more, or "1e30"); "nan" was taken for a time', 'C14')
fixed('cc32836', 'the copy of an event that the Node runtime did not take (queue full or closing) was never released', 'C16')
fixed('0cdc710', 'opening a watcher that fails left its queue, its reference and its memory behind; fields of it were read uninitialised when the runtime failed', 'C16')
fixed('ae332d9', 'closing a Node watcher twice used freed memory', 'C16')
fixed('6d93f18', 'a path that is not a text, or too long, opened a watch on another path ("" or a cut one)', 'C16')
fixed('e6bf9ab', 'closing a Rust watch twice, or closing and dropping it, closed a watcher that was already freed', 'C15')
fixed('986a794', 'a path with a NUL opened a watch on what stands before the NUL', 'C16')
fixed('f3552f1', 'an event of a name which is not UTF-8 raised UnicodeDecodeError in the bridge: it vanished', 'C17')
fixed('c1c4d34', 'a path with a NUL watched what stands before the NUL', 'C17')
fixed('61269f7', 'to_json wrote names as they are: a quote, backslash or control character in a name broke the JSON', 'C17')
fixed('c24b1e6', 'dropping a watch that did not start raised AttributeError', 'C17')
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'known_findings.jsonl'), 'w') as f:
    for x in F: f.write(json.dumps(x) + '\n')
