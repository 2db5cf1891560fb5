"""A small abstract interpreter for the Python subset shade40/Slate is written in.

Nothing in here imports or executes code of the repository: source files are parsed with
`ast` and evaluated over abstract values (terms, intervals, symbolic containers). Loops over
unknown iterables are widened to fresh loop-carried values, so every reported path stands
for all inputs that can drive the code along it.
"""
