import json,sys,importlib
sys.path.insert(0,'/verif')
TECH=json.load(open('/verif/tools/techniques.json'))
extra={
'C01':'Oracle: sums, bounds, exact transfer of the share g between two keys, key format. Tests see one spotless star; the monitor sits on `calc_coverage` and also judges the calls the package makes itself (e.g. from `average_teff`). `alike`: a star whose features differ by hundredths of a kelvin against its twin in which those are equal; the merged coverages must agree.',
'C02':'Oracle: own projection of the map the star reports, with own mu from unit vectors and own limb-darkening polynomial. A wrong weighting cannot show on a star of one temperature (the tests); here every star has several.',
'C03':'Oracle: great-circle distance by atan2 on unit vectors, cap radius from the area, coolest temperature over all covering spots. Also the coverage of a collection and single-spot maps, and crowds of up to 200 spots. `rim` places cap and umbra edges a relative 1e-6..1e-2 inside or outside a chosen element, often next to a pole.',
'C04':'Oracle: same distances, own wall fraction (from C05\'s formula), order statistics of mu inside the facula; counts to within one element and ties, also for crowds of up to 350 faculae. `roundings` looks at `round_teff` and `clip_teff` over their whole range. `rim` does the same for faculae, down to the smallest that cover one element.',
'C05':'Oracle: closed lens formula; conservation wall+floor = pi r^2 cos(angle); monotonic sweeps over angle and depth.',
'C06':'Oracle: closed form of growth then decay, started from the state before each call (pre-hook) and from the initial state for the total time; attributes other than area and phase must be untouched.',
'C07':'As C06 for faculae.',
'C08':'Oracle: shadow list of object identities; a clone of the generator (deep copy with its random state) says what births must add; the holder\'s grid says what shape and pixels every held feature must map to. `brink` carries features to within 1e-9..1e-2 of their end and over it. `throng` holds hundreds of features at once.',
'C09':'Oracle: deep snapshot of state, random generators and arguments; answers asked twice in different orders after overwriting what was returned; a star rebuilt from the current features; the histories also set single attributes of features and replace features by others of the same sizes.',
'C10':'Oracle: unit vectors and exact integrals; quadrature error bounds shrinking with resolution.',
'C11':'Oracle: orthographic projection of every element by scalar products; lens area for the summed occultation on fine grids. Planets larger than their star are included.',
'C12':'Oracle: lens formula; exact contacts built by solving the orbit for the contact angle.',
'C13':'Oracle: atan2 formulas.',
'C14':'Oracle: equality of two runs. Exact ties are avoided by construction or excluded.',
'C15':'Oracle: equality of two runs, one in canonical units and one in randomly drawn units for every quantity.',
'C16':'Oracle: exact equality of full-state traces of equally seeded runs; snapshot of numpy and Python global generator state; other processes with other PYTHONHASHSEED.',
'C17':'Oracle: own template, closed integral by dense quadrature; energy by Stefan-Boltzmann.',
'C18':'Oracle: own account of every flare (support against window, documented selection margins, great-circle angle). Windows reach from minutes to 150 days.',
'C19':'Oracle: closed power law; Kolmogorov-Smirnov and moment tests with p < 1e-9 bounds over thousands of flares; independence by correlations of every pair of columns, also conditional on a third being large or small; tails of the counts of rare flares. No value may repeat, neighbours in the series must be uncorrelated, and no part of a range may stay empty; `storm` looks at very active stars.',
'C20':'Oracle: documented covariance; samples over many seeds are whitened and tested for standard normality; bounds and finiteness on every value. A star is asked again for other times between the same ends.',
'C21':'Oracle: configured values per spot, distributions in bulk, stopping rule recomputed from the returned list, evolving ages inverted from the closed form and required to spread over the whole life (`spread_ages`). `singles` looks at spots born alone and at batches of a thousand.',
'C22':'As C21 for faculae; the common number of standard deviations is checked per facula. `singles` looks at faculae born alone and in large batches.',
'C23':'Oracle: a real feature with the typical parameters, aged in small steps until its collection removes it; births x area-time against coverage x surface x time.',
'C24':'Oracle: the data itself; recorded arguments of the drawing calls on a real cartopy axis.',
'C25':'Oracle: empty collections, zero granulation, pure photosphere after every step.',
'C26':'Oracle: an exception, and an identical state snapshot; the valid twin of each request must succeed (so that refusing everything does not pass).',
'C27':'Oracle: foreshortened area of the visible part of the cap, plus relations (rotation, swap, scaling, monotonic toward the limb). `fine` compares finely sampled spots with the cosine of their place to 8e-5.',
'C28':'Oracle: exact equality of the states, maps, births, flares, coverage and drawing calls of the two twins.',
'C29':'Oracle: exact equality of per-step digests of the full observable state with those of the same simulation alone; identity-keyed snapshots of every shared quantity and of every sibling. Schedules: `interleave` at step boundaries, `preempt` with a baton passed between two threads between random lines of the package by a seeded scheduler, and families of variants of one simulation run in opposite orders in separate processes.',
'C30':'Oracle: own projection and element radii give the mean the warning is about (as an interval, because the projection of the code is good to about 1e-2); planets are tuned by fixed-point iteration to just above and just below the threshold. The limited temperatures are recomputed from the contrasts of the faculae that cover some element.',
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=[]
for p in props:
    i=p['id']; m=importlib.import_module('vsm.props.'+i.lower())
    w=', '.join(f'{n} {a}/{b}' for n,_,a,b in m.WORKLOADS)
    out.append(f"### {i} {p['title']}\n\nMonitor: {TECH[i][0]}. {extra[i]}\n\nWorkload: {m.RULE}\n\nCases (quick/thorough): {w}. Bounds and domain: {'; '.join(m.ASSUMPTIONS) or 'none beyond the statement'}.\n")
head=open('/verif/tools/design_head.md').read()
tail=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(head+'\n## The properties, one by one\n\n'+'\n'.join(out)+'\n'+tail)
