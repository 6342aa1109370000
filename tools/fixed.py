"""Fills the "fixed" list of known_findings.json from the fix commits of /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {  # commit subject after "fix: " -> (property, what failed)
    "write_value preserves all bits outside of the written field": ("P01", "write_value cleared or set bits of neighbouring fields when the buffer was not zero"),
    "read_value strips the bits following an unaligned 64 bit field": ("P01", "reading an unaligned 64 bit field returned the bits behind it as well"),
    "data rejected by ArchiveBuilder.set leaves no partially written resource": ("P05", "a rejected set() left a schema file and an empty or partial resource file"),
    "ArchiveBuilder rejects multivector data its index cannot address": ("P05", "multivector data larger than its index can address was written with a truncated index"),
    "empty resources of a Python archive are not treated as missing": ("P06", "optional resources without elements were shown as missing"),
    "optional Python resources without data are missing instead of raising TypeError": ("P06", "opening raised TypeError if the schema of an optional resource existed but not its data"),
    "truncated multivector data is reported as corrupt on opening": ("P06", "truncated multivector data was noticed when accessed only"),
    "empty files of an archive are reported as mismatching schema or corrupt resource": ("P06", "empty files raised ValueError of mmap"),
    "structures iterate their fields in declaration order": ("P07", "as_dict, as_tuple, as_list and data frames had the fields in the order of a set (hash seed)"),
    "conversion of vector slices to numpy respects the limit": ("P07", "as_numpy(limit) of slices converted all elements"),
    "negative and out of range indices of multivectors": ("P07", "negative and too large indices of multivectors read wrong items"),
    "indices and slices of raw data are relative to the data and end with it": ("P07", "raw data indexed the size header and padding"),
    "sparse tar members in pax format are rejected instead of serving wrong data": ("P08", "sparse pax members were served as wrong bytes"),
    "directories of a tar file without own entry are available in Python": ("P08", "sub-archives in a tar without directory entries were missing"),
    "fields and enumerations without any bits are rejected by the generator": ("P18", "fields and enumerations of 0 bits were accepted"),
    "literals with leading zeros are reported as syntax errors": ("P18", "literals with leading zeros raised ValueError in the generator"),
    "malformed namespaces and ones clashing with other definitions are reported as syntax errors": ("P18", "malformed or clashing namespaces crashed the generator"),
    "two ranges with the same name in one structure are rejected": ("P19", "two ranges of one name in a structure were accepted"),
    "different explicit references of a resource never clash by name": ("P19", "different explicit references with names that join equally were rejected"),
    "references to the same symbol in different notations are reported as redefinition": ("P19", "the same reference written in two notations crashed the generator"),
    "archives in nested or several root namespaces are found by render_python_module": ("P22", "archives in nested or several root namespaces could not be opened by the inspector"),
    "inspector opens archives in tar files": ("P22", "tar files could not be opened by the inspector"),
    "writer determines the archive of a schema by parsing it": ("P22", "the writer took the word archive in comments for the archive"),
    "writer accepts --output-dir as documented": ("P22", "--output-dir of the documentation was unknown"),
    "multivectors with an index of zero bits are rejected": ("P18", "multivector< 0, ... > was accepted"),
    "nested namespaces as in stored schemas are accepted": ("P16", "stored schemas with nested namespaces could not be parsed again"),
    "schemas of resources whose names differ in case only are not mixed up in Python": ("P17", "resources whose names differ in case only had each other's schema in Python"),
    "signed enumerations keep neighbouring bits and compile with their full width in C++": ("P02", "writing negative enumeration values set the bits of neighbouring fields"),
    "signed fields of one bit are read back as written": ("P02", "-1 in a signed field of one bit was read as 1 (C++, Python; the change to Rust was undone by cf94c2f, see P03-rust-one-bit)"),
    "Rust accesses the ninth byte of an unaligned field relative to the field": ("P03", "Rust accessed the ninth byte of an unaligned field relative to the structure"),
    "bool constants and enumerations of type bool compile in Rust": ("P21", "bool constants did not compile in Rust"),
    "optional fields can be assigned from boost::optional": ("P02", "optional fields could not be assigned in C++"),
    "Go extends the sign of unaligned fields within one byte": ("P03", "Go did not extend the sign of unaligned fields within one byte"),
    "C++ rejects single structs whose resource is shorter than the struct": ("P09", "C++ opened instances shorter than their structure and read beyond them"),
    "context of schema differences is computed within bounds": ("P23", "describing a schema difference read outside of the lines"),
    "describing a schema mismatch does not read past the stored schema": ("P23", "describing a mismatch read past the stored schema"),
    "an external vector that was not closed is never read as an empty one": ("P10", "an interrupted external vector was opened as an empty one"),
    "C++ reports resources whose output stream cannot be created instead of crashing": ("P10", "a null stream was used when a file could not be created"),
    "opening a C++ archive builder without storage fails instead of crashing": ("P15", "opening a builder without storage crashed"),
    "elements added to a C++ vector after removing others are zero-initialized": ("P11", "elements added after removing others contained the old ones"),
    "empty C++ array views of structs with ranges have no bytes": ("P12", "an empty view of structures with ranges claimed negative or excess bytes"),
    "distances and offsets of C++ array iterators can be negative": ("P12", "distances of array iterators were unsigned"),
    "reversed C++ array iterators do not refer to temporaries": ("P12", "reverse iteration returned references to temporaries"),
    "schema differences show the same context as before, within bounds": ("P23", "follow-up of the fix of the context of differences"),
    "long names of directories in tar files do not become names of files": ("P14", "a long name of a directory was used for the next file"),
    "file sizes in tar headers cannot move the reader backwards": ("P14", "damaged sizes made the reader loop or read outside of the file"),
    "paths split into prefix and name in tar files are read completely": ("P14", "the prefix of ustar paths was ignored"),
    "numbers padded with spaces are accepted in tar headers": ("P14", "sizes padded with spaces were rejected"),
    "C++ reads the last version of files updated in a tar file": ("P14", "the first version of an updated file was served"),
    "memory storages of sub-directories are protected by the same mutex": ("P24", "storages of sub-directories raced on the shared data"),
    "errors while writing the schema of external vectors are reported on close": ("P10", "failing to write the schema of external vectors was not reported"),
    "for_each of a multivector visits the requested types only": ("P13", "for_each< Type > visited elements of other types"),
    "Rust: a damaged size of a resource is an error instead of an overflow": ("P26", "a damaged size overflowed"),
    "Rust: a resource written again to memory is replaced": ("P26", "a resource written again to memory storage was appended to or kept"),
    "Rust: a file written again is mapped again": ("P26", "a file written again was served from the stale mapping"),
    "Rust: opening a truncated tar is an error instead of reading it panicking": ("P30", "a truncated tar panicked on reading"),
    "Rust: threads that open the same resource do not invalidate each other's data": ("P29", "the mapping of a resource was replaced while another thread used it"),
    "Rust: a field of one bit reads 0 or 1 again, as the unit test of the reader demands": ("P03", "the change of 82f773d contradicted a unit test of flatdata-rs"),
    "inspector opens a file of the archive given relative to its directory": ("P22", "inspector -p A.archive in the archive's directory failed"),
    "Rust: comments with lines that do not start with an asterisk, and //! comments, stay comments": ("P27", "comments of the schema became code that does not compile"),
    "Rust: a range over a field of an enumeration type compiles": ("P27", "a range over a field of an enumeration type did not compile"),
    "Rust: optional fields refer to their constant by the name it is declared with": ("P27", "an optional field with a constant whose name is not in upper case did not compile"),
    "Rust: fields named like the keywords of later editions are escaped, too": ("P27", "fields named Self, async, await, dyn or try did not compile"),
    "C++: enumeration values of the smallest 64 bit number compile with clang": ("P27", "clang rejected an enumeration value of -2^63"),
    "C++: operator< of structures with optional fields compiles": ("P27", "comparing structures with optional fields with operator< did not compile"),
    "numpy integers as indices of Python containers overflowed": ("P07", "vec[numpy.uint8(20)] overflowed when the offset was computed"),
    "numpy values could not be written to structures": ("P01", "numpy integers raised AttributeError or OverflowError or lost bits"),
    "vectors and multivectors set from iterators were written empty": ("P05", "set with a generator wrote an empty resource without an error"),
    "size hint of the Rust iterator over the items of a multivector": ("P32", "size_hint of items().iter() was the number of bytes, not of items"),
    "an unfinished resource written in Rust is never read as an empty one": ("P33", "a resource interrupted after 8 bytes of data was opened as an empty one"),
    "setting a multivector can be repeated after an input or output error": ("P33", "after a failed write of a multivector it could not be set again"),
    "truncated resources were opened in Python": ("P06", "resources that end before the data they announce were opened"),
    "dot: types of other namespaces were shortened wrongly": ("P35", "an enumeration of namespace n.nm (or nm) used by a structure of n was drawn with the type m.E: .nm.E became m.E"),
    "words apart were read as one name in references to fields": ("P37", "@explicit_reference( S t.b, ... ) was accepted and read as St.b"),
    "debug statistics counted more pages read than there are": ("P40", "a resource of 31 bytes was reported as 1 out of 0 pages"),
    "generator could not read schemas beyond ASCII in some locales": ("P25", "UnicodeDecodeError for a comment with an umlaut with LC_ALL=C PYTHONUTF8=0"),
    "generate() took directories named *.flatdata for schemas": ("P39", "generate() of Rust ran the generator on a directory x.flatdata and failed"),
    "long separators of strings were read as parts of strings, no strings as all": ("P07", "separators of several bytes stayed in front of the next string; no strings were read to the end of the data"),
}


def main():
    out = []
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a813662.."], text=True)
    for line in log.splitlines():
        commit, subject = line.split(" ", 1)
        prop, what = FIX[subject[len("fix: "):]]
        out.append("fixed: property=%s %s %s" % (prop, commit, what))
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    data["fixed"] = out
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
