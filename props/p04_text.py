SW = "Exhaustive enumeration of a bounded input space through the real code against an independent reference"
N = "Complete within the stated bounds on the real code from /repo, with AddressSanitizer and exact-size buffers. Trusted: compiler, reference implementation in the harness."
P("C20", "Integers become text exactly, within any buffer",
  "Converting any 32-bit integer to text gives its exact decimal digits with a minus sign for negatives, terminated; the checked form reports failure exactly when sign, digits and terminator do not all fit, the chopping form drops leading digits but keeps sign, remaining digits and terminator. "
  "Nothing outside the buffer, nor behind the terminator, is written for any buffer size including 0 and 1, and the digit count of any unsigned value is exact.",
  ["inputs"],
  "All numbers whose ten digits come from {0,1,9} (thorough: also 5), all small values, neighbourhoods of all powers of two and multiples of powers of ten, with buffer sizes 0 to 13; the digit count of all 2^32 values; thorough: conversion of all 2^32 values.",
  "The tests convert about ten numbers, none with a zero digit.",
  ["util/int_to_str.hh", "util/int_to_str.cc"], [("per-place digit extraction", "util/int_to_str.cc digit/_digit"), ("digit count checked against the buffer", "util/int_to_str.cc int_to_str")],
  SW, "exploration", N, "One evaluation = one number in a range of buffer sizes. All are distinct; non-trivial: representable as a 32-bit integer.",
  [dict(name="c20", src="c20_itoa.cc", repo_src=["util/int_to_str.cc"], opt="-O2"), dict(name="c20big", src="big.cc", flags=["-DBIG=20"], repo_src=["util/int_to_str.cc"])],
  ["With a failing checked conversion the contents of the buffer are left open."])
P("C21", "Printing emits exactly the text of its arguments, in order",
  "Printing any list of arguments sends to the character sink exactly the concatenation of their texts: integers in decimal with sign, hexadecimal values in upper-case digits without leading zeros, C strings up to their terminator and string views for exactly their length, including views with embedded zeros or without terminator.",
  ["inputs"],
  "All numbers built from boundary bytes (thorough: all 2^32 values) in decimal and hexadecimal; all views of a text containing NUL and non-ASCII bytes; every byte value in every printing form; long texts; mixed argument lists.",
  "The tests print a few numbers and null-terminated texts.",
  ["util/print.hh"], [("per-place digit emission with zero suppression", "util/print.hh print_digit"), ("fold over the arguments", "util/print.hh print")],
  SW, "exploration", N, "One evaluation = one number, view or argument list. All distinct and non-trivial.",
  [dict(name="c21", src="c21_print.cc", opt="-O2"), dict(name="c21big", src="big.cc", flags=["-DBIG=21"])], ["Floats print as a placeholder and are left open."])
P("C22", "Version texts parse safely and order totally",
  "Parsing any version text reads only that text and yields for each of the first three dot-separated fields the number it starts with, zero if there is none or it is negative or above 255, and a pre-release mark exactly if the last field contains a dash. "
  "Versions are totally ordered by major, minor, revision, with a pre-release before its release; equality, all comparison operators and the is-later query agree with that order, and hosting needs equal major and at least the same minor.",
  ["inputs"],
  "All texts of up to 7 (thorough 9) characters over digits, dot, dash and a letter, as exact-size views; numbers around every power of two up to 2^65; all pairs of 432 versions.",
  "The tests parse about a dozen texts, all null-terminated literals.",
  ["util/version_tools.hh"], [("split at dots", "util/version_tools.hh Version(string_view)"), ("lexicographic comparison", "util/version_tools.hh operator<=>")],
  SW, "exploration", N, "One evaluation = one text or one pair of versions. Non-trivial: non-empty text; every pair.",
  [dict(name="c22", src="c22_version.cc", opt="-O2")], ["Whether a dash before a later dot marks a pre-release is left open, as are white space and plus signs."])
P("C23", "Text helpers split, replace, compare and find words exactly",
  "Replacing all occurrences equals a left-to-right replacement of non-overlapping matches that never looks into replaced text, and terminates for every input; splitting yields exactly the non-empty pieces between delimiter characters, appended in order; "
  "case-insensitive comparison and ordering equal comparing the lower-cased texts; a word is found exactly if it occurs, ignoring case, delimited by spaces or the ends of the text.",
  ["inputs"],
  "All texts up to 6-7 characters over small alphabets with all search texts/replacements up to 3, five delimiter sets, all pairs of short texts and all character pairs; every length up to several hundred characters for texts, searches, pieces and words.",
  "Only the word search is tested, on seven examples.",
  ["util/string_util.hh", "util/string_compare.hh", "util/contains_word.hh"], [("search resumes after the replacement", "util/string_util.hh replace_all"), ("space-delimited search", "util/contains_word.hh")],
  SW, "exploration", N, "One evaluation = one combination of texts. Non-trivial: text changed, several tokens, equal only when ignoring case, or word found.",
  [dict(name="c23", src="c23_strings.cc", opt="-O2"), dict(name="c23big", src="big.cc", flags=["-DBIG=23"]), dict(name="c23pair", src="pairs.cc", flags=["-DPAIR=23"])], ["Searching for an empty text replaces nothing; searching for an empty word is left open."])
