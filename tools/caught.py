CAUGHT = {i: i[:3].upper() + ', failing input' for i in '''c01-trailing c05-keepconn c06-tworoots c07-dedup c08-stale
c09-filename c10-readd c11-batch c11-onebatch c12-size c13-flusherr c14-child c15-dupspan c15-lasterr c16-malformed
c17-case c18-clone c18-parent c19-flush c20-unsampled c21-uint c22-unknown c23-errors'''.split()}
CAUGHT['c13-flusherr'] = 'C13, failing input (missed at first: the contract did not say what a combined error reports)'
for i in ('c11-batch', 'c11-onebatch', 'c12-size', 'c18-parent'):
    CAUGHT[i] += ' (at first none found: the replay lacked such inputs)'
