BOUNDS = {
 'P07': 'every halo class x truncation model; quantities whose formula leaves the term language are undetermined (22)',
 'P06': 'every halo class, pairs (read, change, read); 21 undetermined',
 'P15': 'populations of two or three symbolic halos of each class, any routing by mass/flag',
 'P22': 'concrete numbers of redshift planes, bins and objects; all quantities symbolic',
 'P25': 'pairs of queries on one or two objects',
 'P27': 'tables of four or five nodes in two trees, every quantity symbolic, host positions and tree order concrete; files with one to three trees',
 'P28': 'two or three halos per list; tabulated ranges split into inside / above / below; trapezoid rule on two radii; evolving profiles symbolic before, at and beyond the end of the evolution plus seven fixed times',
 'P29': 'populations of three symbolic halos (subhalo, field halo, object that is no dark halo) in every mass regime; two or three mass bins',
 'P32': 'maps of three by three pixels, two separations and two orientations, all quantities symbolic; multipoles of order zero to three on three nodes',
 'P33': 'three symbolic halos (subhalo, field halo, subhalo) in every mass regime; figures recorded',
 'P31': 'one or two images, four lens planes (one repeated) and three fine-sampling planes at numeric redshifts, everything else symbolic; three by three pixels in the convergence map; three nodes in a quadrature; one to three samples',
 'P30': 'one to three host halos on two planes, up to three images or centres and up to five drawn objects, all quantities symbolic; surface density map of three by three pixels; fluctuation numbers below and above the maximum',
}
