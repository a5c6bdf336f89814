"""why properties are not claimed"""
NA = {
    "C32": "Running time and sharing statistics are quantities of an execution; nothing in the source text bounds them without a cost semantics of hashing, binary search and allocation.",
}
