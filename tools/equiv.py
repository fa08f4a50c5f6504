"""tools/equiv.py [substr]: spellings that must reach one normal form (regression list for the normaliser).
Each line: arguments | expression | equal expression"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
import threading; threading.stack_size(512 << 20)
EQ = '''
x:f[N,3]; y:f[M,3]; n:int | (torch.tensor([len(x), len(y)]) + torch.tensor([n, 4])).max().item() | max(len(y) + 4, n + len(x))
x:f[N,3]; y:f[M,3] | (torch.tensor([len(x), len(y)]) * 2 + 1).min().item() | min(2 * len(y) + 1, 2 * len(x) + 1)
n:int; m:int | max(n, m) | n if n > m else m
n:int; m:int | max(n, m) | m if n < m else n
n:int; m:int | min(n, m) | n if n <= m else m
n:int | max(n, 3) | n if n >= 3 else 3
n:int | max(n, 3) | 3 if n < 4 else n
a:float | max(a, 1e-8) | a if a > 1e-8 else 1e-8
a:float; b:float | min(a, b) | b if a >= b else a
x:f[B,N,3] | x.narrow(2,0,1) | x[..., 0:1]
x:f[2,5,3] | x.narrow(-1,1,2) | x[..., 1:3]
x:f[2,5,3] | torch.narrow(x,1,0,4) | x[:, :4]
x:f[B,N,3] | x.select(-1,2) | x[..., 2]
x:f[B,N,3] | torch.select(x,1,0) | x[:,0]
x:f[B,N,3] | x.unbind(-1)[1] | x[..., 1]
x:f[4,3] | torch.unbind(x)[1] | x[1]
x:f[N,3] | x.split(1,dim=-1)[2] | x[:,2:3]
x:f[N,3] | x.split([1,2],dim=1)[1] | x[:,1:]
x:f[N,6] | x.chunk(2,dim=1)[1] | x[:,3:]
x:f[N,6] | torch.chunk(x,2,-1)[0] | x[:,:3]
x:f[N,6] | x.tensor_split(2,dim=1)[0] | x[:,:3]
x:f[B,L,H,W,3] | x.movedim(-1,2) | x.permute(0,1,4,2,3)
x:f[B,L,H,W,3] | torch.moveaxis(x,-1,2) | x.permute(0,1,4,2,3)
x:f[B,L,H,W,3] | x.swapaxes(0,1) | x.transpose(0,1)
x:f[B,L,H,W,3] | x.swapdims(3,4) | x.permute(0,1,2,4,3)
x:f[4,4] | x.mT | x.t()
x:f[2,4,4] | x.mT | x.transpose(1,2)
x:f[4,4] | x.T | x.t()
x:f[2,3,4] | x.flatten(1) | x.reshape(2,12)
x:f[2,3,4] | torch.flatten(x) | x.view(-1)
x:f[2,12] | x.unflatten(1,(3,4)) | x.view(2,3,4)
x:f[1,3] | x.broadcast_to(5,3) | x.expand(5,3)
x:f[1,3]; y:f[5,3] | x.expand_as(y) | x.expand(5,3)
x:f[6]; y:f[2,3] | x.view_as(y) | x.view(2,3)
x:f[6]; y:f[2,3] | x.reshape_as(y) | x.view(2,3)
x:f[N,3] | x.square() | x*x
x:f[N,3] | x.pow(2) | x**2
x:f[N,3] | torch.reciprocal(x) | 1/x
x:f[N,3] | x.reciprocal() | 1/x
x:f[N,3]; y:f[N,3] | x.true_divide(y) | x/y
x:f[N,3]; y:f[N,3] | torch.div(x,y) | x/y
x:f[N,3]; y:f[N,3] | x.multiply(y) | x*y
x:f[N,3]; y:f[N,3] | x.subtract(y) | x-y
x:f[N,3]; y:f[N,3] | torch.sub(x,y,alpha=2) | x-2*y
x:f[N,3]; y:f[N,3] | x.add(y,alpha=2) | x+2*y
x:f[N,3]; y:f[N,3] | torch.rsub(x,y) | y-x
x:f[N,3] | x.neg() | -x
x:f[N,3] | x.negative() | -x
x:f[N,3] | x.sqrt() | x**0.5
x:f[N,3] | x.rsqrt() | 1/x.sqrt()
x:f[N,3] | x.norm(dim=-1) | (x**2).sum(-1)**0.5
x:f[N,3] | torch.linalg.norm(x,dim=-1) | x.norm(dim=-1)
x:f[N,3] | torch.linalg.vector_norm(x,dim=-1) | x.norm(dim=-1)
x:f[N,3] | torch.norm(x,p=2,dim=1,keepdim=True) | x.norm(dim=-1).unsqueeze(-1)
x:f[3,3] | torch.linalg.inv(x) | torch.inverse(x)
x:f[3,3] | x.inverse() | torch.inverse(x)
x:f[N,3]; y:f[N,3] | torch.linalg.cross(x,y) | torch.cross(x,y,dim=1)
x:f[N,3]; y:f[N,3] | torch.cross(x,y,dim=1) | torch.stack([x[:,1]*y[:,2]-x[:,2]*y[:,1], x[:,2]*y[:,0]-x[:,0]*y[:,2], x[:,0]*y[:,1]-x[:,1]*y[:,0]],1)
x:f[N,3]; y:f[N,3] | (x*y).sum(-1) | x[:,0]*y[:,0]+x[:,1]*y[:,1]+x[:,2]*y[:,2]
x:f[N,3]; y:f[N,3] | torch.einsum('nk,nk->n',x,y) | (x*y).sum(1)
x:f[N,3]; y:f[3,3] | torch.einsum('nk,jk->nj',x,y) | x@y.t()
x:f[N,3]; y:f[3,3] | torch.matmul(y,x.t()).t() | x@y.t()
x:f[N,3]; y:f[3,3] | (y @ x.unsqueeze(-1)).squeeze(-1) | x@y.t()
x:f[N,3]; y:f[3,3] | torch.mm(x,y) | x@y
x:f[2,N,3]; y:f[2,3,3] | torch.bmm(x,y) | x@y
x:f[3,3]; y:f[3] | torch.mv(x,y) | x@y
x:f[3]; y:f[3] | torch.dot(x,y) | (x*y).sum()
x:f[3]; y:f[3] | torch.outer(x,y) | x[:,None]*y[None]
x:f[3]; y:f[3] | torch.ger(x,y) | x[:,None]*y[None]
x:f[3]; y:f[3] | torch.inner(x,y) | x@y
x:f[3]; y:f[N,3]; R:f[3,3] | torch.addmm(x,y,R) | x+y@R
x:f[3]; y:f[N,3]; R:f[3,3] | torch.nn.functional.linear(y,R,x) | x+y@R.t()
x:f[N,3]; y:f[N,3]; w:f[N,1] | torch.addcmul(x,y,w) | x+y*w
x:f[N,3]; y:f[N,3]; w:f[N,1] | torch.addcdiv(x,y,w) | x+y/w
x:f[N,3]; y:f[N,3] | torch.lerp(x,y,0.5) | x+0.5*(y-x)
x:b[N]; y:b[N] | torch.logical_and(x,y) | x & y
x:b[N]; y:b[N] | x*y | x & y
x:b[N]; y:b[N] | x.logical_or(y) | torch.bitwise_or(x,y)
x:b[N] | x.logical_not() | ~x
x:b[N] | torch.logical_not(x) | x == False
x:b[N]; y:b[N] | torch.logical_xor(x,y) | x ^ y
x:b[N]; y:b[N] | torch.bitwise_and(x,y) | x & y
x:b[N]; y:b[N] | x ^ y | x != y
x:f[N] | x.gt(0) | x > 0
x:f[N] | torch.ge(x,1) | x >= 1
x:f[N] | x.lt(2) | 2 > x
x:f[N] | x.ne(0) | ~(x == 0)
x:f[N] | (x > 0) & (x < 3) | ~((x <= 0).logical_or(x >= 3))
x:f[N] | x.clip(0,3) | x.clamp(0,3)
x:f[N] | x.clamp_min(0) | x.clamp(min=0)
x:f[N] | torch.clamp_max(x,3) | x.clamp(max=3)
x:f[N] | torch.clamp(x,min=0,max=3) | torch.min(torch.max(x,torch.zeros_like(x)),torch.full_like(x,3))
x:f[N]; y:f[N] | torch.maximum(x,y) | torch.max(x,y)
x:f[N]; y:f[N] | torch.where(x>y,x,y) | torch.where(y<x,x,y)
x:f[N]; y:f[N]; m:b[N] | torch.where(m,x,y) | torch.where(~m,y,x)
x:f[N]; m:b[N] | x.masked_fill(m,0) | torch.where(m,torch.zeros_like(x),x)
x:f[N]; m:b[N] | x*m | torch.where(m,x,torch.zeros_like(x))
x:f[N]; m:b[N] | x*m.float() | x*m
x:f[N,3]; m:b[N] | x[m] | torch.masked_select(x,m.unsqueeze(1)).view(-1,3)
x:f[N,3]; m:b[N] | x[m.nonzero().squeeze(1)] | x[m]
x:f[N,3]; m:b[N] | x[torch.nonzero(m,as_tuple=True)[0]] | x[m]
x:f[N,3]; m:b[N] | x[m.nonzero(as_tuple=True)] | x[m]
x:f[N,3]; m:b[N] | x[torch.where(m)] | x[m]
x:f[N,3]; i:i[M] | x.index_select(0,i) | x[i]
x:f[N,3]; i:i[M] | torch.index_select(x,0,i) | x[i]
x:f[N,3] | x.flip(0) | torch.flip(x,[0])
x:f[N,3] | x.sum((0,1)) | x.sum()
x:f[N,3] | x.mean(0) | x.sum(0)/x.shape[0]
x:f[5,3] | x.mean(0) | x.sum(0)/5
x:f[N,3] | x.amax(-1) | x.max(-1)[0]
x:f[N,3] | x.max(dim=-1).values | x.max(-1)[0]
x:f[N,3] | x.amin(1) | torch.min(x,1)[0]
x:f[N,3] | x.argmin(1) | x.min(1)[1]
x:b[N,3] | x.all(-1) | ~((~x).any(-1))
x:f[N,3] | torch.nn.functional.normalize(x,dim=-1) | x/x.norm(dim=-1,keepdim=True).clamp(min=1e-12)
x:f[N,3] | torch.nn.functional.pad(x,(0,1),value=1.0) | torch.cat([x,torch.ones_like(x[:,:1])],1)
x:f[N,3] | torch.nn.functional.pad(x,(0,1),'constant',1.0) | torch.cat([x,torch.ones(x.shape[0],1)],-1)
x:f[5,3] | torch.nn.functional.pad(x,(0,0,0,2)) | torch.cat([x,torch.zeros(2,3)],0)
x:f[N,3] | torch.full_like(x,2) | 2*torch.ones_like(x)
x:f[N,3] | x.new_zeros(x.shape) | torch.zeros_like(x)
x:f[N,3] | x.new_ones(x.shape[0],3) | torch.ones_like(x)
x:f[N,3] | x.new_full((x.shape[0],3),2.0) | torch.full_like(x,2)
x:f[N,3] | torch.zeros(x.size(0),x.size(1)) | torch.zeros_like(x)
x:f[N,3] | torch.zeros(*x.shape) | torch.zeros_like(x)
x:f[N,3] | torch.empty_like(x).fill_(1) | torch.ones_like(x)
x:f[N,3] | x.new_empty(x.shape).zero_() | torch.zeros_like(x)
x:f[N,3]; y:f[M,3] | torch.vstack([x,y]) | torch.cat([x,y])
x:f[N,3]; y:f[N,2] | torch.hstack([x,y]) | torch.cat([x,y],1)
x:f[N,3]; y:f[N,2] | torch.concat([x,y],dim=1) | torch.cat([x,y],1)
x:f[N,3]; y:f[N,2] | torch.concatenate((x,y),dim=-1) | torch.cat([x,y],1)
x:f[N]; y:f[N] | torch.column_stack([x,y]) | torch.stack([x,y],1)
x:f[3] | torch.diag(x) | x[:,None]*torch.eye(3)
x:f[3,3] | torch.diagonal(x) | torch.stack([x[0,0],x[1,1],x[2,2]])
x:f[3,3] | x.diagonal().sum() | x[0,0]+x[1,1]+x[2,2]
x:f[3,3] | x.trace() | x[0,0]+x[1,1]+x[2,2]
x:f[3,3] | torch.trace(x) | x.diagonal().sum()
x:f[N,3] | x.roll(1,0) | torch.roll(x,1,0)
x:f[N,3] | x.repeat(2,1) | torch.cat([x,x],0)
x:f[N,3] | x.tile((2,1)) | torch.cat([x,x],0)
x:f[N,3] | x[None].repeat(4,1,1) | x.unsqueeze(0).expand(4,-1,-1)
x:f[N] | x.unsqueeze(-1).repeat(1,3) | torch.stack([x,x,x],-1)
x:f[N] | x.view(-1,1) | x[:,None]
x:f[N] | x.reshape(-1,1) | x.unsqueeze(1)
x:f[N,1] | x.squeeze(-1) | x[:,0]
x:f[N,1] | x.view(-1) | x.flatten()
x:f[N,3] | x.contiguous().clone().detach() | x
x:f[N,3] | x.type(torch.float64) | x.double()
x:i[N] | x.type_as(torch.zeros(1)) | x.float()
x:f[N,3] | x.to(torch.int64) | x.long()
x:f[N] | x.long() | x.to(dtype=torch.long)
x:f[N] | x.int() | x.to(torch.int32)
x:f[N] | x != 0 | x.bool()
x:f[N] | (x>0).sum() | torch.count_nonzero(x>0)
x:f[N] | (x>0).float().sum() | torch.count_nonzero(x>0).float()
x:f[N] | torch.arange(x.shape[0]) | torch.arange(0,x.size(0),1)
x:f[4,5] | torch.meshgrid(torch.arange(4),torch.arange(5),indexing='ij')[0] | torch.arange(4)[:,None].expand(4,5)
x:f[4,5] | torch.meshgrid(torch.arange(4),torch.arange(5))[1] | torch.arange(5)[None].expand(4,5)
x:f[4,4] | torch.linalg.multi_dot([x,x,x]) | x@x@x
x:f[4,4] | torch.chain_matmul(x,x,x) | x@x@x
x:f[4,4] | x.matmul(x) | x@x
x:f[4,4] | torch.linalg.matrix_power(x,2) | x@x
x:f[N,3]; R:f[3,3]; t:f[3] | x@R.t()+t | torch.cat([x,torch.ones_like(x[:,:1])],1)@torch.cat([R,t[:,None]],1).t()
x:f[N,3] | torch.tensordot(x,x,dims=([0],[0])) | x.t()@x
x:n[5,3] | np.transpose(x) | x.T
x:n[5,3] | np.expand_dims(x,0) | x[None]
x:n[1,5,3] | np.squeeze(x,0) | x[0]
x:n[5,3] | np.concatenate([x,x],axis=1) | np.hstack([x,x])
x:n[5,3] | np.vstack([x,x]) | np.concatenate((x,x))
x:n[4,4] | np.dot(x,x) | x@x
x:n[4,4] | np.matmul(x,x) | x@x
x:n[4,4] | x.dot(x) | x@x
x:n[4,4] | np.linalg.inv(x) | np.linalg.inv(np.asarray(x))
x:n[4,5,3] | np.moveaxis(x,-1,0) | x.transpose(2,0,1)
x:n[4,5,3] | np.rollaxis(x,2) | x.transpose(2,0,1)
x:n[4,5,3] | np.swapaxes(x,0,1) | x.transpose(1,0,2)
x:n[5,3] | np.zeros_like(x) | np.zeros((5,3))
x:n[5,3] | np.full(x.shape,2.0) | 2*np.ones_like(x)
x:n[5,3] | x.astype(np.float32) | x.astype('float32')
x:n[5,3] | x.ravel() | x.reshape(-1)
x:n[5,3] | x.flatten() | np.reshape(x,-1)
x:n[5,3] | torch.from_numpy(x) | torch.as_tensor(x)
x:n[5,3] | torch.tensor(x) | torch.from_numpy(x)
x:n[5,3] | np.linalg.norm(x,axis=1) | np.sqrt((x**2).sum(1))
x:n[5,3] | np.stack([x[:,0],x[:,1],x[:,2]],axis=1) | x
x:n[5,3] | np.column_stack([x[:,0],x[:,1],x[:,2]]) | x
x:n[5,3] | np.clip(x,0,1) | np.minimum(np.maximum(x,0),1)
x:n[5,3] | np.where(x>0,x,0) | np.maximum(x,0)
x:n[5,3] | np.square(x) | x**2
x:n[5,3] | np.add(x,x) | 2*x
x:n[5,3] | np.multiply(x,3) | 3*x
x:n[5,3] | np.divide(x,3) | x/3
x:f[N,3] | torch.stack([x[:,0],x[:,1],x[:,2]],-1) | x
x:f[N,3] | torch.cat([x[:,:1],x[:,1:]],1) | x
x:f[N,3] | x[:, [0,1,2]] | x
x:f[N,6] | x[:, [0,2,3]] | torch.stack([x[:,0],x[:,2],x[:,3]],1)
x:f[N,6] | x[:, [5,1]] | torch.cat([x[:,5:],x[:,1:2]],1)
x:f[N,3] | torch.flip(x,[1]) | torch.stack([x[:,2],x[:,1],x[:,0]],1)
x:f[N,3] | torch.atleast_2d(x) | x
x:f[N,3] | x.float().mean() | x.mean()
x:f[N,3] | len(x) | x.shape[0]
x:f[N,3] | x.numel() | x.shape[0]*3
x:f[N,3] | x.dim() | len(x.shape)
x:f[N,3] | x.size(-1) | 3
x:f[N,3] | x.new_tensor([1.0,2.0]) | torch.tensor([1.0,2.0])
x:f[N,3] | x.ndim | 2
x:f[N] | x.abs() | torch.where(x<0,-x,x)
x:f[N] | torch.relu(x) | x.clamp(min=0)
x:f[N] | torch.sigmoid(x) | 1/(1+torch.exp(-x))
x:f[N] | x.round().long() | torch.round(x).to(torch.int64)
x:f[N] | x.trunc() | torch.trunc(x)
x:f[N] | torch.fmod(x,2) | x.fmod(2)
x:i[N] | x.remainder(2) | x % 2
x:i[N] | torch.remainder(x,2) == 0 | x % 2 == 0
x:i[N] | x // 2 | torch.div(x,2,rounding_mode='floor')
x:i[N] | torch.floor_divide(x,2) | x // 2
x:f[N,3] | torch.eye(4)[:3,:3] | torch.eye(3)
x:f[N,3] | torch.diag(torch.ones(3)) | torch.eye(3)
x:f[N,3] | torch.diag_embed(torch.ones(3)) | torch.eye(3)
x:f[3] | torch.diag_embed(x) | torch.diag(x)
x:f[2,4,4] | torch.eye(4).expand(2,4,4) @ x | x
x:f[2,4,4] | torch.eye(4).unsqueeze(0).repeat(2,1,1) | torch.eye(4).expand(2,-1,-1)
x:f[N,3] | torch.allclose(x,x) | torch.allclose(x,x)
x:f[N,3] | x.isfinite() | torch.isfinite(x)
x:f[N,3] | x.ne(x) | x != x
x:f[N,3] | torch.sum(x,dim=-1,keepdim=True) | x.sum(-1).unsqueeze(-1)
x:f[N,3] | torch.sum(x**2,-1) | x.pow(2).sum(dim=-1)
x:f[N,3] | x.std(0) | torch.std(x,0)
x:f[2,3]; y:f[2,3] | torch.stack((x,y)) | torch.cat([x[None],y[None]])
x:f[5,3] | torch.stack(list(x)) | x
x:f[5,3] | torch.stack([r for r in x]) | x
x:f[5,3] | torch.cat([r.unsqueeze(0) for r in x]) | x
x:f[5,3] | torch.stack([x[i] for i in range(len(x))]) | x
x:f[5,3] | torch.stack(x.unbind(0)) | x
x:f[5,3] | torch.cat(x.split(2)) | x
x:f[5,3] | sum(x[i] for i in range(5)) | x.sum(0)
d:f[2,1,4,5,1]; i:i[6]; j:i[6]; k:i[6] | d[i,0,j,k].squeeze(-1) | d[i,0,j,k,0]
d:f[2,1,4,5,1]; i:i[6]; j:i[6]; k:i[6] | d[:,0][i,j,k] | d[i,0,j,k]
d:f[2,4,5,3]; i:i[6]; j:i[6] | d[i,j][...,:2] | d[...,:2][i,j]
d:f[2,4,5]; i:i[6,2] | d[i[:,0],i[:,1]] | d[i.unbind(1)]
x:f[N,3]; y:f[N,3]; w:f[N,3] | torch.cat([x[:,:1],y[:,1:2],w[:,2:]],1) | torch.stack([x[:,0],y[:,1],w[:,2]],-1)
x:f[N,4] | torch.cat([x[:,:2],x[:,2:]],1) | x
x:f[4,4] | torch.cat([x[:3],torch.tensor([[0.,0.,0.,1.]])]) | torch.stack([x[0],x[1],x[2],torch.tensor([0.,0.,0.,1.])])
R:f[3,3]; t:f[3]; p:f[N,3] | (torch.cat([torch.cat([R,t[:,None]],1),torch.tensor([[0.,0.,0.,1.]])]) @ torch.cat([p,torch.ones(p.shape[0],1)],1).t()).t()[:,:3] | p@R.t()+t
x:f[N,3]; y:f[N,3] | (x != y).any(-1) | ((x-y) != 0).any(1)
x:f[N,3]; y:f[N,3] | (x == y).all(-1) | ~(x != y).any(-1)
x:f[N,3]; y:f[N,3] | torch.hypot(x,y) | (x*x+y*y).sqrt()
x:f[N] | torch.where(x>0,x,-x) | x.abs()
x:f[N] | torch.relu(x) | x.clamp(min=0)
x:f[N,3] | torch.nn.functional.relu(x) | x.clamp(min=0)
x:f[N,3] | x.new_zeros(4) | torch.zeros(4,dtype=x.dtype,device=x.device)
x:f[N,3] | x.new_tensor([1.,2.]) | torch.tensor([1.,2.],dtype=x.dtype,device=x.device)
x:f[N,3] | torch.Tensor.sum(x,1) | x.sum(1)
x:f[N,3] | len(x) | x.shape[0]
x:f[N,3] | x.size(-1) | 3
x:f[N,3] | tuple(x.shape) | (len(x),3)
x:f[N,3] | x.nelement() | x.numel()
x:f[2,5,3] | x.flatten(0,1) | x.reshape(-1,3)
x:f[2,5,3] | x.reshape(10,3).reshape(2,5,3) | x
x:f[2,5,3] | x.transpose(0,1)[:,0] | x[0]
x:f[2,5,3] | x[(Ellipsis,0)] | x[:,:,0]
x:f[2,5,3] | x[0][1][2] | x[0,1,2]
x:f[2,5,3] | x.permute(2,0,1)[0] | x[...,0]
x:f[2,5,3] | x.view(-1).view(2,5,3) | x
x:f[2,5,3] | x.sum(dim=(1,2)) | x.sum(2).sum(1)
x:f[2,5,3] | x.mean((0,1)) | x.reshape(10,3).mean(0)
x:f[2,5,3] | x.max(2,keepdim=True)[0] | x.max(2)[0].unsqueeze(2)
x:f[N,3] | x.norm(dim=1,p=2,keepdim=True).clamp(min=1e-6) | torch.clamp(x.norm(dim=1).unsqueeze(1),min=1e-6)
x:f[N,3] | x/x.norm(dim=1,keepdim=True).clamp_min(1e-12) | torch.nn.functional.normalize(x,dim=1)
x:f[N,3] | x.exp().log() | torch.log(torch.exp(x))
x:f[4,4] | torch.linalg.solve(x,torch.eye(4)) | torch.inverse(x)
x:f[4,4]; b:f[4,1] | torch.linalg.solve(x,b) | torch.inverse(x)@b
x:f[2,4,4] | x.inverse()[0] | torch.inverse(x[0])
x:f[2,4,4] | torch.stack([torch.inverse(x[0]),torch.inverse(x[1])]) | torch.inverse(x)
x:f[N]; i:i[M] | x[i] | x.index_select(0,i)
x:f[N]; i:i[M] | torch.take(x,i) | x[i]
x:f[N,3]; i:i[M] | torch.gather(x,0,i.unsqueeze(1).expand(-1,3)) | x[i]
x:f[N,3] | torch.masked_fill(x,x<0,0.) | torch.where(x<0,torch.zeros_like(x),x)
x:f[N,3]; m:b[N,3] | x.masked_fill(~m,0.) | torch.where(m,x,torch.zeros_like(x))
x:f[N,3] | torch.as_tensor(x) | x
x:f[N,3] | x.type(torch.float32) | x.float()
x:f[N,3] | x.to(torch.float32) | x.float()
x:f[3]; y:f[3] | torch.outer(x,y) | x[:,None]*y[None]
x:f[3]; y:f[3] | torch.ger(x,y) | x.unsqueeze(1)@y.unsqueeze(0)
x:f[3] | torch.stack([torch.stack([x[0]*0,-x[2],x[1]]),torch.stack([x[2],x[0]*0,-x[0]]),torch.stack([-x[1],x[0],x[0]*0])]) | torch.tensor([[0,0,0],[0,0,-1],[0,1,0]])*x[0]+torch.tensor([[0,0,1],[0,0,0],[-1,0,0]])*x[1]+torch.tensor([[0,-1,0],[1,0,0],[0,0,0]])*x[2]
n:int; x:f[N,3] | x[:n].shape[0] | len(x[:n])
x:f[N,3] | x[torch.arange(len(x))] | x
x:f[5,3] | x[torch.arange(5)] | x
x:f[N,3]; m:b[N] | m.sum().item() | int(m.sum())
x:f[N,3]; m:b[N] | (m == 1).any() | m.any()
x:f[N,3]; m:b[N] | x[m == True] | x[m]
x:f[N,3]; m:b[N] | x[m.bool()] | x[m]
x:f[N,3]; m:b[N] | x * m.unsqueeze(-1) | x * m[:,None].float()
x:f[N,3]; m:b[N] | x * m.unsqueeze(-1).to(x.dtype) | x * m.view(-1,1).type_as(x)
x:f[N] | (x > 0) * (x < 3) | (x > 0) & (x < 3)
x:f[N] | (x > 0) + (x < -3) | (x > 0).logical_or(x < -3)
x:f[N] | 0 < x | x > 0
x:f[N] | torch.isnan(x) | x != x
x:f[N] | x.isnan().logical_not() | x == x
x:f[A,3]; y:f[B,3] | torch.tensor([len(x), len(y)]).max().item() | max(len(x), len(y))
x:list(f[?,3]) | max([len(z) for z in x]) | torch.tensor([len(z) for z in x]).max().item()
x:list(f[?,3]) | [int(z) for z in torch.tensor([len(z) for z in x]).tolist()] | [len(z) for z in x]
x:f[N,3] | torch.linspace(0, 4, 5) | torch.arange(5).float()
x:f[N,3] | torch.linspace(0, len(x) - 1, len(x)) | torch.arange(len(x)).float()
x:f[N,3] | torch.arange(2, 5) | torch.arange(3) + 2
x:f[N,3] | torch.arange(9)[None] < torch.tensor([7, 9])[:, None] | torch.tensor([7, 9])[:, None] > torch.arange(9)[None]
x:f[B,N,3]; m:b[B,N,3]; y:f[B,N,3] | torch.where(m, x, y) | x * m + y * ~m
x:f[N]; m:b[N]; y:f[N] | torch.where(m, x + 1, y) - torch.where(m, 1., 0.) | torch.where(~m, y, x)
x:f[N]; m:b[N] | m + m | m
x:f[N,3]; m:b[N,3] | torch.where(m, x, torch.zeros_like(x)).sum(-1) | (x * m).sum(-1)
x:f[N,3]; m:b[N,3] | torch.where(m, x, torch.zeros_like(x)).sum() | (x * m).sum()
x:f[N,3]; m:b[N,3] | torch.where(m, x, torch.zeros_like(x)).norm(dim=-1) | (x * m).norm(dim=-1)
x:f[N,3]; m:b[N,3] | torch.where(m, x, torch.zeros_like(x)).cumsum(0) | (x * m).cumsum(0)
x:f[N,3]; m:b[N,3] | torch.where(m, x, torch.zeros_like(x)) @ torch.eye(3) | (x * m)
x:f[3,3]; y:f[3,3]; s:float; p:f[N,3] | p @ (x@y*s + x + torch.eye(3)*2 + y*s*s).t() | ((x@y*s + x + torch.eye(3)*2 + y*s*s) @ p.t()).t()
x:f[3,3]; y:f[3,3]; s:float; p:f[N,3] | p @ (torch.eye(3) + x*torch.sin(s) + x@x*(1-torch.cos(s))).t() | ((torch.eye(3) + x*torch.sin(s) + x@x*(1-torch.cos(s))) @ p.t()).t()
x:f[3,3]; a:f[1]; c:f[1]; b:f[1]; s:float; p:f[N,3] | p @ torch.stack([torch.stack([a*s+1,b,c],-1)[0],torch.stack([c,a,b],-1)[0],torch.stack([b*b,a*c,a],-1)[0]]).t() | (torch.stack([torch.stack([a*s+1,b,c],-1)[0],torch.stack([c,a,b],-1)[0],torch.stack([b*b,a*c,a],-1)[0]]) @ p.t()).t()
x:f[3,3]; y:f[3,3]; s:float; p:f[N,3] | p @ (x*y*s + x.exp() + x*x*y*s + s + torch.eye(3)*2 + y*s*s + y.sin()*x + x.cos()*s).t() | ((x*y*s + x.exp() + x*x*y*s + s + torch.eye(3)*2 + y*s*s + y.sin()*x + x.cos()*s) @ p.t()).t()
x:f[3,3]; y:f[3,3]; s:f[1]; p:f[N,3] | p @ (x@x*torch.where(s>0,s,s*2) + y*torch.sin(torch.where(s>0,s,s*2))+torch.eye(3)*s).t() | ((x@x*torch.where(s>0,s,s*2) + y*torch.sin(torch.where(s>0,s,s*2))+torch.eye(3)*s) @ p.t()).t()
x:f[3,3]; y:f[3,3]; s:float; p:f[N,3] | p @ (torch.eye(3) + (x@y if s > 0 else x*s+y@y)).t() | ((torch.eye(3) + (x@y if s > 0 else x*s+y@y)) @ p.t()).t()
'''
def main():
    from sa import engine, terms as T
    sub = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = n = 0
    for line in EQ.strip().split("\n"):
        if sub not in line: continue
        ar, e1, e2 = [z.strip() for z in line.split(" | ")] if line.count(" | ") == 2 else [z.strip() for z in (line.split(" | ")[0], " | ".join(line.split(" | ")[1:-1]), line.split(" | ")[-1])]
        names = [z.split(":")[0].strip() for z in ar.split(";")]
        src = "import torch, numpy as np\ndef main(%s):\n    return {'=k': (%s, %s)}\n" % (", ".join(names), e1, e2)
        n += 1
        try:
            o = engine.run("repo", src, ar, ())
            if o.error or o.dead: print("DEAD ", line, o.error); bad += 1; continue
            a, b = [engine.norm_of(o, z) for z in o.vals["=k"]]
        except Exception as ex: print("EXC  ", line, type(ex).__name__, ex); bad += 1; continue
        if a is not b:
            ps = []; engine.settle(None, o, a, b, ps)
            if not ps: v = "entry"
            else: v = "REFUTED" if engine.definite(ps) else "undecided"
            if v == "entry": continue
            bad += 1
            print("%-9s %s\n      %s\n      %s" % (v, line, T.show(a, 5)[:200], T.show(b, 5)[:200]))
    print(n, "pairs,", bad, "not shown equal")
t = threading.Thread(target=main); t.start(); t.join()
