"""Per property: how it is decided and against which oracle (used for DESIGN.md and the level notes)."""
NOTES = {
 'C01': 'get_int_imgs on symbolic images of every storage type, wrap-around modelled; oracle: sums in unbounded integers; images compared before and after.',
 'C02': 'LoadImageData with the files replaced by arrays per file name; oracle: reduction of exactly the listed images computed in the harness; every defect position tried, exception class checked.',
 'C03': 'loader and Data1288 on pairs of images; oracle: population statistics of the pixels; invariances (added constant, permutation, exchange) by running the code on the transformed images and asserting equality.',
 'C04': 'Data1288 on symbolic exposure times and counts (so every order is a path of the sorting); oracle: sorted and aligned series.',
 'C05': 'loader and Data1288 on symbolic stacks; oracle: textbook definitions with exact denominators.',
 'C06': 'Results1288 on symbolic variances and sizes; oracle: the linear system of the statement; transposition by running twice.',
 'C07': 'Results1288 on symbolic series; oracle: normal equations over exactly the stated range; exact recovery for linear cameras.',
 'C08': 'Results1288; oracle: closed formulas of the statement, roots and logarithms as constrained terms.',
 'C09': 'Results1288 with symbolic variances and every peak position or forced index; oracle: index definitions by quantified comparison.',
 'C10': 'Results1288.linearity; oracle: stationarity of the weighted squared deviations and the definition of deviations and extremes.',
 'C11': 'Results1288 with symbolic dark series; oracle: ordinary least squares, floor, NaN rules.',
 'C12': 'Results1288 with symbolic components; oracle: roots or NaN.',
 'C13': 'high_pass_filter for symbolic images; oracle: the double sum over the neighbourhood; wrap-around of narrow types included.',
 'C14': 'Histogram1288; oracle: counting by comparison with the bin limits.',
 'C15': 'Results1288 histograms; oracle: C14 counting applied to the deviation image the statement names.',
 'C16': 'All documented quantities in many orders and interleavings on one symbolic data set, compared by value with a fresh object and with snapshots of the data.',
 'C17': 'FFT1288; oracle: direct DFT with exact algebraic or interval cosines, Parseval and invariances by running again.',
 'C18': 'Each routine is run twice with the same mask and unmasked pixels and independent symbolic hidden data; results must coincide and follow the definition on the unmasked pixels.',
 'C19': 'Descriptor text with symbolic numbers parsed by the real parser; oracle: the series the text was built from.',
 'C20': 'Descriptor texts with defects at every position; oracle: exception of the stated kind, duplicates decided by a solver comparison.',
 'C21': 'dict_to_xml, the real lxml, xml_to_dict with symbolic numbers as text markers.',
 'C22': 'compare_xml on files with symbolic values; oracle: verdict from the seven digit rule, boundaries excluded.',
 'C23': 'Camera.grab with symbolic settings and random draws; oracle: range, dtype, and the sensor equation from the recorded draws.',
 'C24': 'Conversions on symbolic radiances; oracle: closed formula and round trips.',
 'C25': 'get_radiance_for; oracle: expected signal recomputed from the camera with the returned radiance.',
 'C26': 'Setters with symbolic requests; oracle: no step is nearer (for all steps).',
 'C27': 'Tiling with symbolic elements; oracle: element at (i mod rows, j mod columns); normalisation of curves.',
 'C28': 'PointsGenerator on a real (symbolic) camera; oracle: equal spacing and counts.',
 'C29': 'Generator, descriptor text, parser and loader in a row, with a file model of PIL; every replay uses the real PIL.',
 'C30': 'bad_pixel with a symbolic random selection.',
 'C31': 'Plotting1288 with axes that record what they are given; oracle: series and results of an independent Results1288.',
 'C32': 'Report1288 with the real jinja2 templates and symbolic results; oracle: numbers found in the rendered text.',
 'C33': 'Generic documented classes with symbolic values and the real Results1288; oracle: docstring tags and getattr.',
 'C34': 'Qe with symbolic tables; oracle: shape rule and elementwise product.',
 'C35': 'DatasetGenerator with symbolic dark images at each step of the search; oracle: smallest step that meets the criterion.',
 'C36': 'The whole pipeline from descriptor text and symbolic pixels to XML and print; oracle: all definitions restated on the pixels.',
 'C38': 'Report1288 with the real jinja2 templates, symbolic information and real scratch files; oracle: rows and file references found in the rendered text.',
 'C37': 'Two cameras with random generators whose draws are uninterpreted functions of seed and draw index.',
}
NA = {}
