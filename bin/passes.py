"""What is run for each property."""


def core(src, quick, thorough=None, **kw):
    return dict(name=kw.pop('name', src.split('.')[0]), src=src, build=kw.pop('build', 'asan'), quick=quick, thorough=thorough or quick * 15, **kw)


def itk(src, quick, thorough=None, **kw):
    return core(src, quick, thorough, build=kw.pop('build', 'itk-asan'), **kw)


PASSES = {
    'C01': [core('c01.cpp', 40000)],
    'C02': [core('c02.cpp', 16000)],
    'C03': [core('c03.cpp', 40000)],
    'C04': [core('c04.cpp', 60000)],
    'C05': [core('c05.cpp', 40000), core('c05m.cpp', 4000)],
    'C06': [core('c06.cpp', 80000)],
    'C07': [core('c07.cpp', 30000)],
    'C08': [core('c08.cpp', 30000), core('c08m.cpp', 0, 60000)],
    'C09': [core('c09.cpp', 100000)],
    'C10': [core('c10.cpp', 60000)],
    'C11': [core('c11.cpp', 200000)],
    'C12': [core('c12.cpp', 24000)],
    'C13': [core('c13.cpp', 20000)],
    'C14': [core('c14.cpp', 8000)],
    'C15': [core('c15.cpp', 200000)],
    'C16': [core('c16.cpp', 10000)],
    'C17': [core('c17.cpp', 4000)],
    'C18': [core('c18.cpp', 4000)],
    'C19': [itk('c19.cpp', 4000, tools=['c19helper.cpp', 'repo/TestingFramework/tfPipeToXML.cxx'])],
    'C20': [itk('c20.cpp', 160000), itk('c20v.cpp', 32000, optional=True)],
    'C21': [itk('c21.cpp', 4000), itk('c21.cpp', 1600, name='c21-tsan', build='itk-tsan')],
    'C22': [itk('c22.cpp', 12000)],
    'C23': [itk('c23.cpp', 20000)],
    'C24': [itk('c24.cpp', 6000)],
    'C25': [itk('c25.cpp', 24000)],
    'C26': [itk('c26.cpp', 20000)],
    'C27': [itk('c27.cpp', 12000)],
    'C28': [itk('c28.cpp', 1600, tools=['repo/itktf/itktfImageCompare.cxx'])],
    'C29': [core('c29.cpp', 6000), core('c29m.cpp', 800, 20000)],
    'C31': [core('c31.cpp', 4000), core('c31m.cpp', 8000)] + [
        core('c%02d.cpp' % i, n, build='plain', run='valgrind', name='memcheck-c%02d' % i, memonly=True, casemax=200)
        for i, n in ((31, 320), (1, 64), (2, 48), (3, 64), (4, 64), (5, 64), (6, 64), (7, 64), (8, 64), (9, 160), (10, 160), (11, 400), (12, 64), (13, 64), (14, 24), (15, 400), (16, 64), (29, 16))],
    'C32': [itk('c32a.cpp', 6000), itk('c32b.cpp', 8000), itk('c32c.cpp', 6000), itk('c32d.cpp', 1600), itk('c32e.cpp', 800), itk('c32f.cpp', 3000), itk('c32g.cpp', 8000)],
    'C33': [core('c33.cpp', 240000)],
    'C34': [core('c34.cpp', 40000)],
    'C35': [itk('c35.cpp', 6000)],
    'C36': [core('c36.cpp', 60000)],
    'C30': [core('c30.cpp', 600, build='tsan', shards=4)],
}

EX = 'exploration'
A_ENV = 'gcc 13 with the sanitizers, the C library, expat and the file system of the sandbox are trusted'
A_ORACLE = 'the oracle in the harness (written without the code under test) is trusted'
MON = 'runtime monitoring: '
# level, technique, rule (what a case is and when it is counted as distinct and non-trivial), note, smallest number of distinct cases for an answer
RULES = {
    'C01': (EX, MON + 'independent XML parser over recordings, ASan+UBSan', 'A case is a random sequence of measurements (all kinds, hostile names and contents, extreme numbers, 0 to several hundred), host name and return values, recorded by the real Main to a file or standard output and read back with a separate expat parser; distinct by sequence.', 1000),
    'C02': (EX, MON + 'round-trip oracle (record, compare with own recording), ASan+UBSan', 'A case is a random sequence of measurements that is recorded and compared with its own recording, with a random tolerance setting; distinct by sequence.', 500),
    'C03': (EX, MON + 'reference judge of edited baselines, ASan+UBSan', 'A case is a sequence of measurements and a baseline made from it by random edits (change, insert, remove, reorder, rename, retype, truncate); every return value is compared with a reference judge; distinct by baseline and sequence.', 1000),
    'C04': (EX, MON + 'reference tolerance relation, ASan+UBSan', 'A case is a pair of contents of a numeric type (edges of the tolerance, extremes, malformed text) and a history of tolerances, judged through IsEqualTolerant, visitors and Main in both directions and compared with exact arithmetic; distinct by pair, type and tolerance.', 2000),
    'C05': ('fault_enumeration', MON + 'fault injection (interposed read/write/open, file size limits, exceptions), verdict monitor', 'A case is a run with one fault: an exception of one of 24 types at a random point, a baseline that is missing, truncated, malformed or fails to read at a random byte, an output that cannot be opened or fails to write at a random byte, short reads and writes, bad options; distinct by fault, point, and measurements.', 500),
    'C06': (EX, MON + 'reference argument parser, argv with exact bounds under ASan', 'A case is a random argument vector; what the test sees, the getters and the return value are compared with a reference parser; distinct by vector.', 2000),
    'C07': (EX, MON + 'second XML parser as oracle, mutated and grammar-generated baselines, ASan+UBSan, allocation balance', 'A case is a baseline: a random spelling of a random document, or mutated, truncated, deeply nested or binary bytes; the verdict for the measurements a second parser reads is checked; distinct by bytes.', 2000),
    'C08': (EX, MON + 'XML parser and line-difference reference over reports, ASan+UBSan', 'A case is a baseline and an edited sequence of measurements; the complete output is parsed and compared with the reports expected; distinct by pair.', 1000),
    'C09': (EX, MON + 'replay of the edit script and minimality by dynamic programming, ASan+UBSan', 'A case is a pair of texts; the script is parsed, applied to the first text, and its length is compared with the dynamic programming minimum; distinct by pair.', 2000),
    'C10': (EX, MON + 'independent encoder, buffers with exact bounds under ASan', 'A case is a byte sequence and a setting; distinct by both.', 2000),
    'C11': (EX, MON + 'independent validator and decoder, buffers with exact bounds under ASan', 'A case is a string (valid, mutated, or random) and a setting; the first 1024 cases put every byte value into an encoding; distinct by both.', 5000),
    'C12': (EX, MON + 'model of the objects after every operation, ASan+UBSan, allocation balance', 'A case is a random history of operations on up to seven measurement objects; every getter is compared with a model after every step; distinct by history.', 1000),
    'C13': (EX, MON + 'byte-wise oracle of equality, ASan+UBSan', 'Every pair of three to eight objects with related names, types, data and encodings; distinct by pair.', 2000),
    'C14': (EX, MON + 'byte-wise oracle with generated file trees and permissions', 'A case is a tree of search directories, files with related contents, search path options and a sequence of file measurements, also as an unprivileged user; distinct by layout.', 400),
    'C15': (EX, MON + 'reference algebra over strings, ASan+UBSan', 'A case is a string (or several) as a path name; distinct by string.', 3000),
    'C16': (EX, MON + 'reference search over generated directories, ASan+UBSan', 'A case is a colon separated list, or a list of directories with files, links and directories of the searched name; distinct by both.', 1000),
    'C17': (EX, MON + 'stat/access of the operating system after every step of random histories', 'A case is a history of changes to a scratch tree; after each step the queries of old and new path objects are compared with stat, access and readdir, also as an unprivileged user; distinct by history.', 300),
    'C18': (EX, MON + 'getcwd of the operating system after every step of random histories', 'A case is a history of directory changes, removals and renames, with very long paths and missing permissions; distinct by history.', 300),
    'C19': (EX, MON + 'the real program with scripted commands, XML parser over its recording, ASan+UBSan', 'A case is a command (arguments, writes of any size to both outputs with delays, closing of its outputs, exit value or signal, or one that cannot be started), run by the real program recording or comparing, with or without an expected value; distinct by script, arguments, expectation and baseline.', 200),
    'C20': (EX, MON + 'brute-force reference over small images, ASan+UBSan', 'A case is a pair of images of 1 to 3 dimensions and one of eight pixel types (with NaN and infinite values), a threshold, a radius, a requested region and a number of work units; count, total, mean and output image are compared with a brute-force reference; distinct by images and settings.', 1000),
    'C21': (EX, MON + 'ThreadSanitizer and brute-force reference over divisions of the work, delays in the workers', 'A case is a pair of images and settings, executed several times with 1 to 16 work units, two kinds of threads, delays in the workers, in requested pieces in any order, streamed, from pipelines that make only what is requested, again, and with other settings and inputs in between; count, magnitudes and output are compared with a brute-force reference and with one another; distinct by images and settings.', 500),
    'C22': (EX, MON + 'brute-force reference over generated image files, ASan+UBSan', 'A case is a set of pairs of image files (1 to 3 dimensions, nine pixel types, ten formats, related pixels, same or other geometry, missing and damaged files) and a history of tolerances, compared by a test with a baseline, by a visitor that is used again, or recorded and compared with the recording; distinct by files and history.', 500),
    'C23': (EX, MON + 'brute-force reference over images, regions and tolerances, ASan+UBSan', 'A case is a pair of images (1 to 3 dimensions, nine pixel types, any start, the baseline possibly larger) compared one to four times in a row, whole or in regions, with tolerances, also of different size and as files; distinct by images and calls.', 1000),
    'C24': (EX, MON + 'XML parser over the reports, PNG files read back and compared with the slices, ASan+UBSan', 'A case is a set of one to five measurements of image files of related or different pixels, geometry and pixel type; every report is parsed and compared with the files; distinct by files and tolerances.', 500),
    'C25': (EX, MON + 'XML parser and reference judge over composite measurements, ASan+UBSan', 'A case is a sequence of composite measurements (sizes, indices, regions, points, vectors, arrays and matrices of 1 to 12 components and several component types, extreme values included), recorded, and compared with an edited recording under some tolerance; distinct by values and baseline.', 500),
    'C26': (EX, MON + 'oracle over the generated names (unique, repeatable, one character changed, location), ASan+UBSan', 'A case is a command line, a sequence of requests for names, and up to twelve command lines that differ in one character; distinct by command line.', 500),
    'C27': (EX, MON + 'model of the log of every stream over histories of events, watchers and releases, ASan+UBSan, reference counts', 'A case is a history of events of scripted and real filters, with watchers created and destroyed in between on several streams and observers of the user; distinct by history.', 300),
    'C28': (EX, MON + 'the real program with generated command lines and image files, ASan+UBSan', 'A case is a command line of images and options (also unknown, missing and malformed, and up to several hundred images) with a baseline, executed by the real program; the exit status is compared with a reference; distinct by command line and files.', 300),
    'C29': (EX, MON + 'comparison of reused with fresh objects, descriptor count and allocation balance', 'A case is a history of runs of one or several test objects with mixed outcomes; each result and output is compared with that of a fresh object; distinct by history.', 200),
    'C30': (EX, MON + 'ThreadSanitizer and comparison with sequential results', 'A case is a set of jobs, executed in a number of threads at the same time with random delays and compared with the results of the sequential execution; distinct by set of jobs.', 100),
    'C31': (EX, MON + 'ASan+UBSan over random programs, valgrind memcheck over all core workloads, determinism and allocation balance', 'A case is a random program over the whole public interface, or a case of another harness executed under memcheck; distinct by sequence of operations.', 500),
    'C32': (EX, MON + 'the monitors of C01, C02, C03, C06, C08, C14 and C29 on tests derived from itk::Regression, ASan+UBSan', 'A case is a case of one of these monitors, executed with a test class that is derived from itk::Regression; distinct as there.', 1000),
    'C33': (EX, MON + 'recording visitors over random objects, ASan+UBSan', 'A case is a set of measurement objects of all kinds, also of classes of the user, and a visitor that handles a random subset of the kinds; every visit is compared with the hierarchy of kinds; distinct by objects, visits and subset.', 1000),
    'C34': (EX, MON + 'trace of the replaced steps of a test, checked after every measurement, ASan+UBSan', 'A case is a test with replaced makers of visitors (that judge as the framework, or as they like) and perhaps replaced reporting steps, a sequence of measurements and an edited baseline; distinct by all of them.', 1000),
    'C35': (EX, MON + 'typed image reader over the files that were written and brute-force reference of the verdicts, ASan+UBSan', 'A case is a sequence of one to five images in memory (2 or 3 dimensions, six pixel types, any start, spacing, origin and orientation, also outputs of pipelines that have not run), recorded and then compared with the recording as they are or changed; distinct by images.', 500),
    'C36': (EX, MON + 'trace of the replaced steps and streams against a model of the run, XML parser over the output, ASan+UBSan', 'A case is one to three runs of a test class that replaces a subset of the steps and streams, some of which throw, with measurements, options and baselines; distinct by history.', 1000),
}
LEVEL_RULES = {p: dict(level=v[0], technique=v[1], rule=v[2], min=v[3], assumptions=[A_ENV, A_ORACLE]) for p, v in RULES.items()}
