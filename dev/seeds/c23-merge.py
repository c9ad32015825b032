S=dict(property='C23',needs='histograms that start at the same value and end at different ones',breaks='Histograms over different ranges are merged',
edits=[('Source/IO/Output/Histogram.cpp','m_binCentres[0] == hist->m_binCentres[0] &&\n\t\tm_binCentres[m_nBins-1] == hist->m_binCentres[m_nBins-1])','m_binCentres[0] == hist->m_binCentres[0])')],
demo=r'''
#include <bits/stdc++.h>
#define private public
#include "Histogram.hh"
#include "Photon.hh"
int main()
{
    Histogram a("a", "Photon", "Energy", 0, 0, 10, 11);
    Histogram* b = new Histogram("b", "Photon", "Energy", 0, 0, 20, 11);
    Photon g(5.9, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    b->AppParticle(&g);
    a.Merge(b);
    double s = 0;
    for (int i = 0; i < 11; i++) s += a.m_binValues[i];
    return s == 0 ? 0 : 1;
}
''')
