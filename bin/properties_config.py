"""What each check builds and how much it explores."""

def unit(src, variants=("san", "rel"), flags=(), repo=(), extra=(), libs=(), weight=1.0, name=None, cxx="g++"):
    return {"src": src, "variants": list(variants), "flags": list(flags), "weight": weight, "cxx": cxx,
            "repo": list(repo), "extra": list(extra), "libs": list(libs), "name": name or src.replace(".cpp", "")}


def matrix_unit(src, **kw):
    """a harness which needs the tracker table and, through TheBestPolicy, OpenBLAS"""
    kw.setdefault("repo", ["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"])
    kw.setdefault("libs", ["-lopenblas", "-lboost_filesystem", "-lboost_system"])
    return unit(src, **kw)


def parts(src, n, stem, **kw):
    return [matrix_unit(src, name="%s%d" % (stem, i), flags=["-DPART=%d" % i], **kw) for i in range(1, n + 1)]


CONFIG = {
    "P01": {
        "units": parts("arith.cpp", 3, "arith"),
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "at least one operand has a non-zero element; distinct = distinct sequence of generator choices",
    },
    "P02": {
        "units": parts("assign.cpp", 3, "assign"),
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the right operand has a non-zero element and the combination can show it; distinct = distinct sequence of generator choices",
    },
    "P03": {
        "units": parts("mult.cpp", 3, "mult"),
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the product has a non-zero element; distinct = distinct sequence of generator choices",
    },
    "P05": {
        "units": parts("conv.cpp", 3, "conv"),
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the source has a non-zero element (for value checkers: some elements are kept and some dropped); distinct = distinct sequence of generator choices",
    },
    "P06": {
        "units": [matrix_unit("converter.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the source has a significant element; distinct = distinct sequence of generator choices",
    },
    "P07": {
        "units": [matrix_unit("partition.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "a dimension is larger than the largest block and the matrix is not zero; distinct = distinct sequence of generator choices",
    },
    "P04": {
        "units": [matrix_unit("blocked.cpp", name="blocked_mult", flags=["-DMULT"]),
                  matrix_unit("blocked.cpp", name="blocked_mult_blas", flags=["-DMULT", "-DWITH_OPENBLAS"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "more than one block is multiplied and the product has a non-zero element; distinct = distinct sequence of generator choices",
    },
    "P08": {
        "units": [matrix_unit("blocked.cpp", name="blocked_desc")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "more than one block and a non-zero element; distinct = distinct sequence of generator choices",
    },
    "P10": {
        "units": [matrix_unit("norm.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the matrix has more than one non-zero element; distinct = distinct sequence of generator choices",
    },
    "P11": {
        "units": [matrix_unit("current.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "norm or occupation is asked for more than twice in a history with changes (conversions: the type changes); distinct = distinct sequence of generator choices",
    },
    "P12": {
        "units": [matrix_unit("occupation.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "some, but not all non-zero elements are significant; distinct = distinct sequence of generator choices",
    },
    "P09": {
        "units": [matrix_unit("transpose.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "more than one row and column and more than one non-zero element; distinct = distinct sequence of generator choices",
    },
    "P13": {
        "units": [unit("checker.cpp")],
        "quick": {"cases": 50000, "time": 40}, "thorough": {"cases": 1000000, "time": 600},
        "level": "exploration",
        "rule": "the generated values and bounds are not zero (ordering: more than one kind of checker); distinct = distinct sequence of generator choices",
    },
    "P14": {
        "units": [unit("storage.cpp")],
        "quick": {"cases": 40000, "time": 40}, "thorough": {"cases": 800000, "time": 600},
        "level": "exploration",
        "rule": "more than two changes in the history (conversions: all; striped: more than one block with a gap); distinct = distinct sequence of generator choices",
    },
    "P15": {
        "units": [matrix_unit("values.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "more than two changes in the history; equality: more than one element; distinct = distinct sequence of generator choices",
    },
    "P16": {
        "units": [matrix_unit("views.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the view is a proper part of the matrix with more than one element (copy: a proper part of the destination; tiles: more than one tile in both directions); distinct = distinct sequence of generator choices",
    },
    "P17": {
        "units": [matrix_unit("fileimport.cpp", repo=["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/MatrixFactory/MatrixFileImporter.cpp"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the window is a proper part of the file or the import must be refused (importer: more than one row and column, or refused); distinct = distinct sequence of generator choices",
    },
    "P18": {
        "units": [matrix_unit("archive.cpp", libs=["-lopenblas", "-lboost_serialization", "-lboost_filesystem", "-lboost_system"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "a written object is read back or must be refused (matrices: more than one element); distinct = distinct sequence of generator choices",
    },
    "P19": {
        "units": [matrix_unit("pattern.cpp", libs=["-lopenblas", "-lboost_serialization", "-lboost_filesystem", "-lboost_system"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the image has more than one color; distinct = distinct sequence of generator choices",
    },
    "P20": {
        "units": [matrix_unit("printing.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "more than one row and column or more than one non-zero element; distinct = distinct sequence of generator choices",
    },
    "P21": {
        "units": [unit("blas.cpp", name="blas_openblas", repo=["src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"], libs=["-lopenblas", "-ldl"]),
                  unit("blas.cpp", name="blas_mkl", flags=["-DWITH_MKL"], repo=["src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"], libs=["-lopenblas", "-ldl"])],
        "quick": {"cases": 40000, "time": 40}, "thorough": {"cases": 800000, "time": 600},
        "level": "exploration",
        "rule": "no dimension is zero (threads: more than one); distinct = distinct sequence of generator choices",
    },
    "P22": {
        "units": [matrix_unit("mkl.cpp", repo=["src/Utilities/tracker.cpp", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the product is not zero; distinct = distinct sequence of generator choices",
    },
    "P23": {
        "units": [matrix_unit("tracker.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "more than one event in the history; distinct = distinct sequence of generator choices",
    },
    "P24": {
        "units": [matrix_unit("dispatch.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the operands aren't zero (tables: two different types; searches: a list of more than one type; multiple matrices: parts of different dimensions); distinct = distinct sequence of generator choices",
    },
    "P25": {
        "units": [matrix_unit("sources.cpp", extra=["harness/program_generate_matrix.cpp"], repo=["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/MatrixFactory/MatrixGenerator.cpp", "src/Benchmark/MatrixProvider.cpp"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the matrix has more than one row and column (views: a proper part; providers: more than one set; programs: a matrix is written); distinct = distinct sequence of generator choices",
    },
    "P26": {
        "units": [matrix_unit("deviation.cpp")],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the matrices differ and have more than one row and column (scalars: they differ); distinct = distinct sequence of generator choices",
    },
    "P27": {
        "units": [matrix_unit("actions.cpp", extra=["harness/program_benchmark.cpp"], repo=["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/Benchmark/ActionProvider.cpp", "src/Benchmark/MatrixProvider.cpp", "src/Benchmark/time.cpp"]),
                  matrix_unit("actions.cpp", name="actions_mkl", weight=0.4, flags=["-DWITH_INTELMKL", "-UWITH_OPENBLAS"], extra=["harness/program_benchmark.cpp"], repo=["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp", "src/Benchmark/ActionProvider.cpp", "src/Benchmark/MatrixProvider.cpp", "src/Benchmark/time.cpp"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the product isn't zero (program: more than one action and no planted fault; durations: more than one); distinct = distinct sequence of generator choices",
    },
    "P28": {
        "units": [matrix_unit("show.cpp", extra=["harness/program_show_pattern.cpp"], repo=["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"])],
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "an image of a matrix which isn't zero is written with a palette; distinct = distinct sequence of generator choices",
    },
    "P29": {
        "units": parts("chains.cpp", 2, "chains"),
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "an operand of a pair is a result of an earlier operation (static matrices: a target is an operand) and there is more than one result; distinct = distinct sequence of generator choices",
    },
    "P30": {
        "units": [matrix_unit("threads.cpp", flags=["-UBLASBOOSTER_USE_TRACKER"], variants=["tsan", "rel"],
                              repo=["src/Utilities/tracker.cpp", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/MatrixFactory/MatrixFileImporter.cpp", "src/MatrixFactory/MatrixGenerator.cpp"])],
        "quick": {"cases": 60000, "time": 60}, "thorough": {"cases": 1000000, "time": 600},
        "level": "exploration",
        "rule": "at least two threads work on matrices of more than one element; distinct = distinct sequence of generator choices",
    },
    "P31": {
        "units": parts("memory.cpp", 2, "memory"),
        "quick": {"cases": 40000, "time": 60}, "thorough": {"cases": 400000, "time": 600},
        "level": "exploration",
        "rule": "the operation takes memory, so that at least one request is refused, and its operands have elements; distinct = distinct sequence of generator choices",
    },
}
