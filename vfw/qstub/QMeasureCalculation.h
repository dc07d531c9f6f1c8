// Recording stand-in for the external 3dct/qmeasure library, which is not part of the repository checkout.
#pragma once
#include <map>
#include <string>
#include <vector>

struct QRecord {
    std::vector<float> data;
    int dims[3];
    double range[2];
    int bins, peaks, calls;
};

extern "C" {
inline QRecord &q_record() { static QRecord r{}; return r; }
__attribute__((used, visibility("default"))) inline int q_calls() { return q_record().calls; }
__attribute__((used, visibility("default"))) inline long q_size() { return (long) q_record().data.size(); }
__attribute__((used, visibility("default"))) inline const float *q_data() { return q_record().data.data(); }
__attribute__((used, visibility("default"))) inline int q_dim(int i) { return q_record().dims[i]; }
__attribute__((used, visibility("default"))) inline double q_range(int i) { return q_record().range[i]; }
__attribute__((used, visibility("default"))) inline int q_bins() { return q_record().bins; }
__attribute__((used, visibility("default"))) inline int q_peaks() { return q_record().peaks; }
}

class QMeasureCalculation {
public:
    std::map<std::string, double> computeOrigQ(const float *image, const int dim[3], const double range[2], int bins, int peaks, bool) {
        QRecord &r = q_record();
        long n = (long) dim[0] * dim[1] * dim[2];
        r.data.assign(image, image + n);
        double sum = 0;
        for (long i = 0; i < n; i++) sum += image[i];
        for (int i = 0; i < 3; i++) r.dims[i] = dim[i];
        r.range[0] = range[0];
        r.range[1] = range[1];
        r.bins = bins;
        r.peaks = peaks;
        r.calls++;
        std::map<std::string, double> m;
        m["Q (orig, equ 1)"] = sum / (double) n + 1e-3 * bins + 1e-1 * peaks;
        m["Q (orig, equ 0)"] = -1;
        m["Q (equ 2)"] = -2;
        return m;
    }
};
