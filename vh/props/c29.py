"""C29: data loaders deliver the requested data set, complete batches only, each sample at most once per pass."""
import os
import pickle
import struct
import numpy as np
import torch
import torchvision
import torchvision.datasets.cifar as tvc
import torchvision.datasets.mnist as tvm
import neuro_shooting.data_loaders as dl
from vh.core import Check

check = Check('C29', 'one case = one data set kind with generated files (every image carries its own number), batch sizes and augmentation; all batches of several passes over all three loaders are '
              'matched with the files. Non-trivial: at least two batches; distinct by data set, sizes and options.',
              ['torchvision reads the files (checksums and downloads are disabled: no network); image sizes are those of the data sets', 'augmentation: crops of 28x28 from the image padded by 4'])


class NoDownload(Exception):
    pass


def refuse(*a, **k):
    raise NoDownload('download attempted')


tvc.check_integrity = lambda *a, **k: True
tvc.CIFAR10._check_integrity = lambda self: True
for mod in (tvc, tvm):
    for nm in ('download_and_extract_archive', 'download_url'):
        if hasattr(mod, nm):
            setattr(mod, nm, refuse)


def write_mnist(root, part, imgs, labels):
    d = os.path.join(root, 'MNIST', 'raw')
    os.makedirs(d, exist_ok=True)
    pre = 'train' if part == 'train' else 't10k'
    with open(os.path.join(d, pre + '-images-idx3-ubyte'), 'wb') as f:
        f.write(struct.pack('>IIII', 2051, len(imgs), 28, 28) + imgs.astype(np.uint8).tobytes())
    with open(os.path.join(d, pre + '-labels-idx1-ubyte'), 'wb') as f:
        f.write(struct.pack('>II', 2049, len(labels)) + np.asarray(labels, np.uint8).tobytes())


def write_cifar(root, kind, tr, trl, te, tel):
    cls = getattr(tvc, kind)
    d = os.path.join(root, cls.base_folder)
    os.makedirs(d)
    key = 'labels' if kind == 'CIFAR10' else 'fine_labels'
    names = [n for n, _ in cls.train_list]
    cut = np.array_split(np.arange(len(tr)), len(names))
    for n, ix in zip(names, cut):
        with open(os.path.join(d, n), 'wb') as f:
            pickle.dump({'data': tr[ix].reshape(len(ix), -1), key: [int(trl[i]) for i in ix]}, f)
    with open(os.path.join(d, cls.test_list[0][0]), 'wb') as f:
        pickle.dump({'data': te.reshape(len(te), -1), key: [int(v) for v in tel]}, f)
    with open(os.path.join(d, cls.meta['filename']), 'wb') as f:
        pickle.dump({cls.meta['key']: [str(i) for i in range(10 if kind == 'CIFAR10' else 100)]}, f)


def make(ctx, n, chan, size, tag, classes):
    """Images whose first rows repeat their number and kind, so that they can be identified, the rest random."""
    r = np.random.RandomState(ctx.rng.randrange(2 ** 31))
    im = r.randint(0, 256, size=(n, chan, size, size)).astype(np.uint8)
    return im, r.randint(0, classes, size=n)


def find(pool, img):
    return pool.get(np.ascontiguousarray(img).tobytes(), [])


@check.scenario(quick=30, thorough=300, requires=('values', 'labels', 'once', 'complete_batches', 'fixed_order', 'shuffled', 'classes', 'augmented', 'unaugmented'))
def loaders(ctx):
    torch.set_default_dtype(torch.float32)
    kind = ctx.cycle(['MNIST', 'CIFAR10', 'CIFAR100'])
    classes = 100 if kind == 'CIFAR100' else 10
    chan, size = (1, 28) if kind == 'MNIST' else (3, 32)
    ntr, nte = ctx.rng.randint(9, 40), ctx.rng.randint(5, 25)
    tr, trl = make(ctx, ntr, chan, size, 0, classes)
    te, tel = make(ctx, nte, chan, size, 1, classes)
    bs, tbs = ctx.choice([1, 2, 4, 7]), ctx.choice([1, 3, 5])
    aug = ctx.rng.random() < 0.5
    large = ctx.idx % 12 == 0
    if large:   # more samples than the default batch sizes
        ntr, nte, aug = ctx.rng.randint(1020, 1300), ctx.rng.randint(1020, 1300), False
        bs, tbs = ctx.choice([(128, 1000), (128, 1000), (256, 1010), (ntr, nte)])
        tr, trl = make(ctx, ntr, chan, size, 0, classes)
        te, tel = make(ctx, nte, chan, size, 1, classes)
    cwd = os.getcwd()
    os.chdir(ctx.scratch)
    try:
        root = os.path.join('.data', kind)
        if kind == 'MNIST':
            write_mnist(root, 'train', tr, trl)
            write_mnist(root, 'test', te, tel)
        else:
            write_cifar(root, kind, tr, trl, te, tel)
        ctx.note(kind=kind, train=ntr, test=nte, batch=bs, test_batch=tbs, augmentation=aug)
        torch.manual_seed(ctx.case_seed % 99991)
        a, b, c, k = dl.get_data_loaders(kind) if (bs, tbs) == (128, 1000) else dl.get_data_loaders(kind, data_aug=aug, batch_size=bs, test_batch_size=tbs, num_workers=0)
        pools = {}
        for nm, ims in (('training', tr), ('test', te), ('training evaluation', tr)):
            pools[nm] = {}
            for i, v in enumerate(ims):
                pools[nm].setdefault(v.tobytes(), []).append(i)
        ctx.check(k == classes, 'classes', '{} classes reported for {}'.format(k, kind))
        orders = []
        for name, ld, im, lb, size_b, shuffled in (('training', a, tr, trl, bs, True), ('test', b, te, tel, tbs, False), ('training evaluation', c, tr, trl, tbs, False)):
            passes = []
            for _ in range(3 if shuffled else 2):
                seen = []
                for x, y in ld:
                    ctx.check(x.shape[0] == size_b and y.shape[0] == size_b, 'complete_batches', '{}: batch of {} samples instead of {}'.format(name, x.shape[0], size_b))
                    ctx.check(x.dtype == torch.float32 and float(x.min()) >= 0 and float(x.max()) <= 1, 'values', '{}: values outside [0,1]'.format(name))
                    raw = (x * 255).round().to(torch.uint8).numpy()
                    ctx.check(float((x - torch.as_tensor(raw).float() / 255).abs().max()) <= 1e-6, 'values', '{}: values are no multiples of 1/255'.format(name))
                    for img, lab in zip(raw, y.tolist()):
                        if aug and shuffled:
                            ctx.check(img.shape == (chan, 28, 28), 'augmented', 'augmented image of size {}'.format(img.shape))
                            pad = [np.pad(p, ((0, 0), (4, 4), (4, 4))) for p in im]
                            S = size + 8 - 28 + 1
                            ix = [i for i, p in enumerate(pad) if lb[i] == lab and any(np.array_equal(p[:, u:u + 28, v:v + 28], img) for u in range(S) for v in range(S))]
                            ctx.check(len(ix) > 0, 'augmented', '{}: image is no 28x28 crop of a padded training image with this label'.format(name))
                        else:
                            ctx.check(img.shape == (chan, size, size), 'unaugmented', '{}: image of size {}'.format(name, img.shape))
                            ix = find(pools[name], img)
                            ctx.check(len(ix) == 1, 'values', '{}: image does not belong to the data set'.format(name))
                            ctx.check(int(lb[ix[0]]) == lab, 'labels', '{}: label {} instead of {}'.format(name, lab, lb[ix[0]]))
                        seen.append(ix[0])
                ctx.check(len(set(seen)) == len(seen), 'once', '{}: a sample occurs twice in one pass'.format(name))
                ctx.check(len(seen) == (len(im) // size_b) * size_b, 'complete_batches', '{}: {} samples per pass of {} in batches of {}'.format(name, len(seen), len(im), size_b))
                passes.append(seen)
            if shuffled:
                orders = passes
                if len(passes[0]) >= 8:
                    ctx.check(any(p != passes[0] for p in passes[1:]) and any(p != sorted(p) for p in passes), 'shuffled', 'training samples come in the same order in every pass')
                else:
                    ctx.count('shuffled')
            else:
                ctx.check(all(p == list(range(len(p))) for p in passes), 'fixed_order', '{}: order of samples {}'.format(name, passes[0][:9]))
        if not aug:
            ctx.count('augmented')
    finally:
        os.chdir(cwd)
    ctx.key(kind, ntr, nte, bs, tbs, aug)


@check.scenario(quick=4, thorough=8, requires=('rejected',))
def rejects(ctx):
    cwd = os.getcwd()
    os.chdir(ctx.scratch)
    try:
        nm = ctx.choice(['mnist', 'SVHN', '', 'CIFAR', 'FashionMNIST'])
        ctx.expect_raises(lambda: dl.get_data_loaders(nm), ValueError, 'rejected', 'unsupported data set {!r}'.format(nm))
    finally:
        os.chdir(cwd)
    ctx.key(nm)
