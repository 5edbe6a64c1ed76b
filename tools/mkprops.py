#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
RT='TestingFramework/tfRegressionTest.cpp'
ME='TestingFramework/tfMeasurement.cpp'
MV='TestingFramework/tfMeasurementVisitor.cpp'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','A comparison never reports success unless everything was read and matched',
 'When a test run that was given a baseline file returns 0 and its test body is one that returns the expected return value, the test body ran to completion, the whole baseline document was obtained, it was well formed, and every measurement the test made matched its baseline measurement. '
 'No failing or short read, failing or vanishing file, truncated or corrupted baseline, exhausted memory or change of working directory during the run turns a mismatch, an unreadable baseline or an aborted test into a success.',
 ['fault_sequences','inputs','histories'],
 'over all baselines (valid, torn, corrupted), measurement sequences, and sequences of read/open/stat/allocation failures and file-system changes at any point of the compare run',
 'The tests compare four fixed scripts against intact baselines on a healthy disk; no test makes an operation fail or a file change while a run is in progress, and a false pass needs exactly that.',
 [RT,ME,MV],
 [('return value computation after the test body',RT+':RegressionTest::Main'),('mismatch counter',RT+':RegressionTest::CompareMeasurement'),('baseline reader with stream state and parser error checks',RT+':RegressionTest::ReadXMLInput')],
 ['return value of RegressionTest::Main','bytes delivered by every read of the baseline'],
 [('inputUnmatched','number of measurements that did not match','TestingFramework/tfRegressionTest.h'),('Input','baseline measurements still to be matched','TestingFramework/tfRegressionTest.h')])
p('C02','A recorded baseline compares equal to the run that recorded it',
 'Without I/O errors a run without a baseline records its sequence of measurements successfully, and running the same sequence with that recording as baseline, in the same or another process, reports success and no difference, and every measurement call of both returns 0. '
 'This holds for numeric, text and text file measurements, every name and content made of printable ASCII, tab, line feed and carriage return, every number including NaN and infinities, on every host name and date, with every global C++ locale set by the program before or during either run, and however reads and writes are split or interrupted.',
 ['inputs','histories','fault_sequences'],
 'over all measurement sequences and values, host names, clock values, locales, and all benign splittings and interruptions (short reads and writes, EINTR) of the file I/O of both runs',
 'The tests record a handful of values on one host and never split I/O; whether escaping, number formatting, parsing and comparison compose to the identity has to hold for all contents.',
 [RT,ME,MV],
 [('XML output of measurements and escaping',ME+':Measurement::Print / ApplyEscapeSequences / PrintStartTag'),('number formatting precision',ME+':SetValue'),('parser element and data handlers',RT+':ReadXMLInput')],
 ['file written by the recording run','return value and output of the comparing run'])
p('C03','The comparison verdict is the number of positional mismatches',
 'With a readable well-formed baseline and a test body that returns the expected value, the value returned is exactly the number of measurements that did not match: the n-th measurement matches the n-th baseline entry only if name, type and content agree, where contents agree if textually identical or, for a numeric measurement compared with tolerance, if |u-v| <= e*|u| or |u-v| <= e*|v| or both magnitudes are below the machine epsilon of the type (floating point contents carry 7 or 16 significant digits), whatever the global C++ locale is. '
 'Baseline entries left over at the end are not counted, an unexpected return value of the test body is returned instead, and a value that is not a number (or not finite) never matches a number it is not textually identical to, and every Measurement call returns 0 if it matched (or, without a baseline, was recorded) and a value other than 0 if it did not.',
 ['inputs','histories','fault_sequences'],
 'over all pairs of baseline and measurement sequences (inserted, removed, reordered, renamed, retyped, perturbed just inside and outside the tolerance), all return values, tolerances, and benign splittings of the reads',
 'Tests exercise a few sequences with zero or one perturbation; the count must be right for every history of matches and mismatches and at the tolerance boundary.',
 [RT,MV,'TestingFramework/tfMeasurement.h'],
 [('positional matching',RT+':RegressionTest::CompareMeasurement'),('tolerance test','TestingFramework/tfMeasurement.h:_IsEqualTolerant'),('content comparison',ME+':DataMeasurement::IsEqual')],
 ['return value of RegressionTest::Main'],
 [('Input','queue of baseline measurements','TestingFramework/tfRegressionTest.h'),('relativeTolerance','tolerance for numeric measurements','TestingFramework/tfRegressionTest.h')])
p('C04','A failing run ends in an orderly non-success return, never a crash or hang',
 'Whatever the test body throws, whatever the command line options or the baseline contain, and whichever file operation or memory allocation fails, running the test returns normally: it does not abort, crash, access memory out of bounds, loop forever, or let an exception escape. '
 'If the test body did not complete, the returned value is not 0, whatever return value is expected; all files the run opened are closed once the test object is gone, and a following test in the same process, or a following run of the same test object, behaves as if the failed one had not run.',
 ['fault_sequences','inputs','histories'],
 'over all exceptions thrown at any point of the test body, malformed baselines and option lists, and single or repeated allocation and file operation failures at every point of a run',
 'One existing test throws nothing and injects nothing; failure paths run only if something fails at a chosen instant.',
 [RT,ME],
 [('catch-all around a run',RT+':RegressionTest::Main'),('parser state clean-up',RT+':XMLParseData')],
 ['normal return of Main','open descriptors after the object is destroyed','verdict of a following run'])
p('C05','An acknowledged recording is complete on disk',
 'If a run that records measurements to an output file or to standard output returns success, that output is a complete well-formed document that contains every measurement made by the test, in order, with its name, type and content. '
 'A full disk, an I/O error, an interrupted or short write or a failing close makes the run return non-success unless the output is complete all the same.',
 ['fault_sequences','inputs','crash_points'],
 'over all measurement sequences and all sequences of write, flush and close failures and short writes (ENOSPC, EIO, EDQUOT, EINTR, partial writes, failing close)',
 'No test makes a write fail; ignored stream errors are invisible on a healthy disk.',
 [RT,ME],
 [('output stream creation, write and close',RT+':BeginMeasurement / EndMeasurement / WriteXMLOutputEnd')],
 ['bytes in the output file when the run returns','return value of RegressionTest::Main'])
p('C06','A crash while recording loses at most the measurement in progress',
 'If the process dies at any instant of a recording run, the output file is a prefix of the document an undisturbed run would have written and contains completely every measurement whose recording call had returned. '
 'A torn recording is never accepted as a baseline: a later comparison against it reports non-success.',
 ['crash_points','inputs'],
 'over all measurement sequences and all crash points (before, inside and after any write, and between any two steps of the run), with write splitting',
 'Tests never kill a run; buffering changes that delay records are invisible to runs that end normally.',
 [RT],
 [('each record is flushed as it is made',RT+':Measurement* functions (std::endl)'),('closing tag written last',RT+':WriteXMLOutputEnd'),('parser must see the document element closed',RT+':ReadXMLInput')],
 ['bytes handed to the operating system at the crash point','return value of a later comparison'])
p('C07','The difference report is complete and truthful',
 'In a comparison the output holds, in the order the measurements were made, one report for every mismatching measurement and nothing for matching ones: "Unmatched <name>" with the test content if no baseline entry corresponds, the pair "Test <name>"/"Baseline <name>" with both contents if they differ, and for plain text one "Difference <name>" script. '
 'Every report is a well-formed element with type and content preserved, and applying the script to the baseline text yields the test text. '
 'Each report has reached the output before the next measurement is made, so a later crash does not lose it.',
 ['inputs','histories','crash_points','fault_sequences'],
 'over all mismatch histories, texts and edit scripts, crash points after any measurement, and write splitting',
 'Tests check only the exit status of comparisons; no test reads the report back.',
 [RT,MV,'TestingFramework/tfDiff.cpp'],
 [('unmatched and difference reports',RT+':UnmatchedMeasurement / DifferenceMeasurement'),('pair printing and text difference',MV+':DifferenceVisitor::Visit'),('diff algorithm','TestingFramework/tfDiff.cpp')],
 ['bytes written to the output file or standard output of the comparing run'])
p('C08','File measurements compare the bytes of the two files',
 'A text file measurement matches only if both the file named by the test and the baseline file (found through the search path) could be read completely and hold identical bytes; if either is missing, unreadable, or fails while being read, the measurement does not match or the run reports failure. '
 'Two readable identical files always match, and a file that changes size or content while being read never causes memory corruption, a crash or a match on bytes that were not read.',
 ['inputs','fault_sequences','histories'],
 'over all file contents, sizes, search paths, and open/read/seek/allocation failures and concurrent modifications (grow, truncate, replace, remove) at any read of either file',
 'No stable test compares a file measurement, none injects read failures or concurrent changes.',
 [ME,RT],
 [('file loading',ME+':MeasurementFile::Load'),('file comparison',ME+':MeasurementFile::IsEqual'),('baseline file lookup',RT+':CompareMeasurement')],
 ['return value of RegressionTest::Main','bytes delivered for both files'])
p('C09','Options and search path select the files the user asked for',
 'The leading -O, -I, -R and -P options and their values are consumed and the test body receives exactly the remaining arguments in order; each option has its documented effect: output goes to the -O file, the baseline is the -I file, which is read from the first search path directory containing it (the last -P being searched first) or from its own path if no directory contains it, and -R sets the expected return value. What the test says about itself (whether it compares, its file names, search path and expected return value) agrees with that before, during and after the run. '
 'An unreadable baseline or search directory, or an output file that cannot be created, makes the run fail with a non-zero value and without calling the test body; only the output file is written and only the baseline is used, whatever else the directories contain and whichever query fails.',
 ['inputs','configurations','fault_sequences'],
 'over all option sequences including incomplete ones, directory trees, search paths, and failures of the directory and file queries',
 'Eight argument tests use one fixed tree with at most one search directory and no failing queries.',
 [RT,'FileUtilities/PathName.cpp'],
 [('argument parsing',RT+':ParseAndRemoveArguments'),('search path lookup','FileUtilities/PathName.cpp:SearchPathList')],
 ['arguments seen by the test body','files opened','return value of RegressionTest::Main'],
 [('searchPath','directories searched for baseline files','TestingFramework/tfRegressionTest.h')])
p('C10','Tests running concurrently or one after another do not influence each other',
 'Two test objects used by different threads, or one after another in one process, each behave exactly as if they were alone: same return value, same output file, same report, under every interleaving of their steps.',
 ['schedules','histories'],
 'over all interleavings of the memory accesses and I/O calls of two or three runs on distinct objects and files, and all sequential orders',
 'The tests run one object per process in one thread.',
 [RT,ME,MV,'TestingFramework/tfDiff.cpp','TestingFramework/tfBase64.cpp','FileUtilities/PathName.cpp'],
 [('all run state lives in the object',RT),('parser state passed through user data',RT+':ReadXMLInput')],
 ['return values and files of each run compared with the solo run'])
p('C11','tfPipeToXML captures exactly the standard output and exit status of the command',
 'Running a command through tfPipeToXML passes the arguments unchanged and records one plain text measurement "stdout" holding exactly the text (XML representable ASCII) the command wrote to its standard output, independent of how they were chunked, of what it wrote to standard error and of how the two interleave. Two outputs that differ never compare as equal, whatever bytes they consist of. '
 'The result is the exit value of the command if it exited with an unexpected value, the verdict of the comparison or recording if it exited with the expected value, and non-success if it could not be started or was killed by a signal (unless -1 is the expected value).',
 ['schedules','inputs','fault_sequences'],
 'over all outputs, chunkings and interleavings of the two streams, exit codes, signals and start failures',
 'No stable test runs tfPipeToXML; chunking and interleaving of a real child cannot be chosen.',
 ['TestingFramework/tfPipeToXML.cxx',RT],
 [('read loop over the child pipes','TestingFramework/tfPipeToXML.cxx:Test'),('exit state mapping','TestingFramework/tfPipeToXML.cxx:Test')],
 ['recorded measurement and return value'])
p('C12','The image comparison verdict follows the documented tolerances',
 'A test (an itk::Regression or the itktfImageCompare tool) whose baseline names image measurements succeeds exactly if every image measurement matches; each one matches exactly if both images could be read, have the same size, spacing and origin (the direction is not compared), and at most the tolerated number of pixels differ by more than the intensity tolerance from every baseline pixel within the tolerance radius (difference of scalar pixels, up to rounding at the threshold itself). '
 'The tolerances are those in force when the measurement was made. The measurement call returns 0 if it matched, and otherwise not. CompareImage called directly, on files or on images, returns the number of such pixels less the tolerated number (not below zero), with tolerances of zero where none are given, and the largest number if the sizes differ. An image that is missing, damaged so that the image library rejects it, of another geometry, or not a number where the baseline has a number never counts as matching, and no failing call or image makes the comparison crash or report success for an image it did not read. '
 'The baseline image is looked up by its file name in the baseline directories, and as written if it is in none of them. The options of the tool stay in force until they are given again, and an option that is unknown, has no value, or whose value is no number or (where an unsigned number is expected) a negative one, makes it fail. Not specified: pixels that are not a number in both images, and the pixels of a file whose data ends early or fails to be read when the image library does not report it.',
 ['inputs','fault_sequences','configurations'],
 'over all small images, tolerances and radii, and failures of the image reads and writes at any point',
 'The four image tests do not even pass at the pinned commit; they cover one image pair each and no faults.',
 ['itktf/itktfRegression.cxx','itktf/itktfRegression.h','itktf/itktfCompareVisitor.cxx','itktf/itktfDifferenceVisitor.cxx','itktf/itktfDifferenceImageFilter.txx'],
 [('image comparison','itktf/itktfCompareVisitor.cxx'),('pixel difference filter','itktf/itktfDifferenceImageFilter.txx')],
 ['return value of the image regression test'])
p('C13','The difference image filter result is independent of threads and schedule',
 'For given inputs the difference image (for each pixel the smallest difference to a pixel within the tolerance radius, zero if one is within the threshold or if boundary pixels are ignored), the number of differing pixels and the total and mean difference are those of a sequential reference computation, for every number of work units, every way the region is split among them, and every interleaving of the workers (sums up to floating point rounding).',
 ['schedules','configurations','inputs'],
 'over all small images and settings, all numbers of work units and region splits, and all interleavings of the work units at memory access granularity',
 'Real thread pools pick one schedule; the tests do not exercise the filter successfully at the pinned commit.',
 ['itktf/itktfDifferenceImageFilter.h','itktf/itktfDifferenceImageFilter.txx'],
 [('per-thread accumulators combined after the workers finish','itktf/itktfDifferenceImageFilter.txx:ThreadedGenerateData / AfterThreadedGenerateData')],
 ['output image and statistics getters'],
 [('m_ThreadDifferenceSum','per work unit partial sum','itktf/itktfDifferenceImageFilter.h')])
p('C14','File queries report the state of the file system, also when calls fail',
 'Each query (exists, is file, is directory, readable, writable, executable, directory listing, path search, current directory, listing a search path) answers according to a state the file system had during the call; the listing contains exactly the entries present throughout and none never present. '
 'If the underlying call fails the answer is the negative one, an empty listing, or an error, never a fabricated positive answer or uninitialised content, and no directory handle stays open.',
 ['fault_sequences','inputs','histories'],
 'over all small directory trees, permissions, concurrent create/remove/rename actions between any two system calls, and failures of any system call',
 'The tests only use these functions indirectly on one existing tree.',
 ['FileUtilities/FileUtilities.cpp','FileUtilities/PathName.cpp'],
 [('status queries through stat and access','FileUtilities/PathName.cpp'),('directory and search path listings','FileUtilities/FileUtilities.cpp')],
 ['return values of the queries'])
p('C15','The meaning of a baseline does not depend on its layout or delivery',
 'Two baseline files that are the same XML document (differing in white space between measurements, comments, entity or character references, CDATA sections, attribute quoting and order) give the same verdict and report, independent of file size, of where read boundaries fall and of how reads are split or interrupted. '
 'A base64 encoded text content in the baseline is compared by its decoded bytes.',
 ['inputs','fault_sequences'],
 'over all documents, layouts, file sizes around the read block size, and short or interrupted reads',
 'The four baselines used by the tests are all smaller than one read block, in one layout.',
 [RT,ME,'TestingFramework/tfBase64.cpp'],
 [('incremental parsing of fixed size blocks',RT+':ReadXMLInput'),('character data accumulation',RT+':data'),('base64 decoding','TestingFramework/tfBase64.cpp')],
 ['return value and report of the comparing run'])
p('C16','Base64 encoding and decoding are inverse',
 'Decoding the encoding of any byte sequence gives the byte sequence back, and malformed encodings are rejected.',
 ['inputs'],'over all byte sequences and malformed encodings',
 'No test touches the codec.',
 ['TestingFramework/tfBase64.cpp'],[('codec','TestingFramework/tfBase64.cpp')],['Encode / Decode'])
p('C17','Path splitting, joining and list conversion are consistent',
 'Splitting a path into head and tail and joining them again gives an equivalent path, and converting a path list to its separator form and back gives the same list.',
 ['inputs'],'over all path strings and lists','No test targets path algebra.',
 ['FileUtilities/PathName.cpp','FileUtilities/PathName.h'],[('path algebra','FileUtilities/PathName.cpp')],['PathName members'])
p('C18','The report on images that do not match says what differs, with complete images',
 'When an image measurement is compared and both images can be read, the report on the output stream names, for images that do not match, each property that differs and no other: the size, spacing, origin and component type of baseline and test image, the first three with their values. If the sizes are the same it also has "ImageError <name>", the number of pixels that differ by more than the intensity tolerance (from every baseline pixel within the radius), and three "Difference <name>" image files, whose names end in .diff.png, .base.png and .test.png, derived from the test image: each, when the run ends and no write failed, a complete image of the central slice, the one of index size/2 (of the difference outside the tolerance, the baseline image and the test image), with the values rescaled to the range of a byte. '
 'For images that match, nothing is reported. The report stays well formed XML elements for every image, name and failure of writing those images.',
 ['inputs','fault_sequences','configurations'],
 'over all small image pairs, geometries, tolerances, and failures or short deliveries of the writes',
 'No stable test produces an image report; the contents of the images depend on inputs and on every write being completed.',
 ['itktf/itktfRegression.cxx','itktf/itktfCompareVisitor.cxx','itktf/itktfDifferenceVisitor.cxx','itktf/itktfDifferenceImageFilter.txx'],
 [('geometry report','itktf/itktfCompareVisitor.cxx'),('difference report and images','itktf/itktfDifferenceVisitor.cxx')],
 ['report on standard output, image files named in it'])
p('C19','Composite and image measurements are recorded completely and read back',
 'A size, index, region, point, vector, array or matrix is recorded as one number per component, in order (row by row for a matrix), each named after the measurement and its position (name_i, name_i_j, "name Index_i" and "name Size_i"), with the tolerance in force exactly where the caller gave one or the type has one by default. '
 'An image measurement of a file is recorded with the tail of its path, an image in memory is written to a file (named after the program, in the directory its name was given with) whose name is distinct within the run and the same in every run with the same arguments, and that file holds exactly the pixels when recording succeeded and no call failed. '
 'Comparing the same measurements with such a recording succeeds, also in another process and with reads and writes in pieces, and comparing others whose values differ by more than the tolerance does not. A measurement call returns 0 when it records or all it compares matches, and otherwise not.',
 ['inputs','histories','fault_sequences'],
 'over all sequences and values of such measurements, and interrupted or short reads and writes in both runs',
 'No stable test makes a composite or an in-memory image measurement.',
 ['itktf/itktfRegression.cxx','itktf/itktfRegression.h',RT],
 [('component names and order','itktf/itktfRegression.h'),('image recording','itktf/itktfRegression.cxx')],
 ['recorded document and image files, return value of the comparing run'])
p('C20','The text of a filter watcher depends only on what happened to the filter',
 'A filter watcher writes, for every history of executions, iteration and abort events of the filter it watches, a line "-------- Start <class> "<comment>" ", " # ", "ABORT" on a line of its own, and "-------- End <class> "<comment>" " for exactly the start, iteration, abort and end events which the filter sent while the watcher existed, in their order, and nothing else: the text is the same for every number of threads and schedule and contains no addresses, times or progress. '
 'Several watchers of one filter are independent, a watcher keeps its own copy of the comment, and a watcher may end before its filter, or the filter\'s last other reference before the watcher, without the filter or the watcher being harmed.',
 ['histories','schedules','fault_sequences'],
 'over all histories of executions, aborts, failures and watchers coming and going, and all interleavings of the worker threads',
 'No stable test uses the watcher.',
 ['itktf/itktfFilterWatcher.h'],
 [('event observers','itktf/itktfFilterWatcher.h:FilterWatcher'),('text per event','itktf/itktfFilterWatcher.h:StartFilter / ShowIteration / ShowAbort / EndFilter')],
 ['text written to the stream of the watcher'])
for r in P: print(json.dumps(r))
