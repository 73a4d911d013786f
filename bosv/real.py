"""The Bibles that ship with the repository as test data: real-world input for the monitors."""
import os
from bosv import boot
TD = os.path.join(boot.REPO, 'Tests', 'DataFilesForTests')

def usfm(names=('USFMTest1', 'USFMTest2', 'USFM2AllMarkersProject', 'USFM3AllMarkersProject')):
    from BibleOrgSys.Formats.USFMBible import USFMBible
    for n in names:
        d = os.path.join(TD, n)
        if not os.path.isdir(d): continue
        with boot.quiet():
            B = USFMBible(d, n); B.preload(); B.loadBooks()
        yield n, B
